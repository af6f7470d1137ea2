From abefe52cec82052e8b0bfbc4ec79e6b6708be568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 01/29] fix: make ClassDB membership total for unknown labels
 and foreign keys

---
 comb_spec_searcher/class_db.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
@@ -159,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From ef5ab047cfe7812da1869888c1db240300967862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 02/29] fix: breadth-first proof tree generator gives each
 label a single rule

---
 comb_spec_searcher/tree_searcher.py | 39 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..d7f1b35 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -5,7 +5,7 @@ Finds and returns a combinatorial specification, that we call a proof tree.
 import time
 from collections import defaultdict, deque
 from copy import deepcopy
-from itertools import chain, product
+from itertools import chain
 from random import choice, shuffle
 from typing import Dict, FrozenSet, Iterator, List, Optional, Sequence, Set, Tuple
 
@@ -196,25 +196,44 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     N.B. The rules_dict is assumed to be pruned.
     """
 
-    def _bfs_helper(root_label: int, seen: FrozenSet[int]):
+    def _bfs_helper(
+        root_label: int, seen: FrozenSet[int], chosen: Dict[int, Tuple[int, ...]]
+    ) -> Iterator[Tuple[Node, Dict[int, Tuple[int, ...]]]]:
         if root_label in seen:
-            yield Node(root_label)
+            yield Node(root_label), chosen
             return
         next_seen = seen.union((root_label,))
-        for rule in rules_dict[root_label]:
-            for children in product(
-                *[_bfs_helper(child_label, next_seen) for child_label in rule]
+        # A label met in another branch must use the rule chosen there.
+        rules = (
+            (chosen[root_label],)
+            if root_label in chosen
+            else sorted_rules_dict[root_label]
+        )
+        for rule in rules:
+            for children, new_chosen in _bfs_forest(
+                rule, next_seen, {**chosen, root_label: rule}
             ):
-                root_node = Node(root_label)
-                root_node.children = list(children)
-                yield root_node
+                yield Node(root_label, children), new_chosen
+
+    def _bfs_forest(
+        root_labels: Tuple[int, ...],
+        seen: FrozenSet[int],
+        chosen: Dict[int, Tuple[int, ...]],
+    ) -> Iterator[Tuple[List[Node], Dict[int, Tuple[int, ...]]]]:
+        if not root_labels:
+            yield [], chosen
+            return
+        for tree, chosen1 in _bfs_helper(root_labels[0], seen, chosen):
+            for trees, chosen2 in _bfs_forest(root_labels[1:], seen, chosen1):
+                yield [tree] + trees, chosen2
 
     sorted_rules_dict = {
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        for tree, _ in _bfs_helper(root, frozenset(), {}):
+            yield tree
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From 5ada7e8e20df8360b5585351490c6b9bf35df61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 03/29] fix: iterative pruning allows recursion to the start
 class up to equivalence

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..dd1b8ba 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From acc24404ae4ea5371b362b4ff794cf60e77916bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:11 +0000
Subject: [PATCH 04/29] fix: look up the representative of the start class
 after pruning

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index dd1b8ba..8b55cec 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -222,7 +222,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Pruning can merge equivalence classes, so the root is looked up afterwards.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From 50582f42224d64700e21dcbbf0327c66bc0f6de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 05/29] fix: recomputed strategies ignore rules whose classes
 were never labelled

---
 comb_spec_searcher/rule_db/forget.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..4de4458 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -100,9 +100,16 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
+                    if any(
+                        c not in self.classdb for c in (rule.comb_class, *rule.children)
+                    ):
+                        # Not a rule that was added to the database.
+                        continue
                     start_label = self.classdb.get_label(rule.comb_class)
                     nonempty_children = tuple(
-                        c for c in rule.children if not self.classdb.is_empty(c)
+                        c
+                        for c in rule.children
+                        if not (rule.possibly_empty and self.classdb.is_empty(c))
                     )
                     end_labels = tuple(
                         sorted(map(self.classdb.get_label, nonempty_children))
-- 
2.43.0


From 957af3b97c8c9360bf7423e3da3bac13ace67156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 06/29] fix: one-way rules with a single non-empty child are
 extracted as equivalence rules

---
 comb_spec_searcher/specification_extrator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification_extrator.py b/comb_spec_searcher/specification_extrator.py
index b8dec2a..1f60721 100644
--- a/comb_spec_searcher/specification_extrator.py
+++ b/comb_spec_searcher/specification_extrator.py
@@ -86,7 +86,11 @@ class SpecificationRuleExtractor:
             if len(children) != 1:
                 raise self._missing_rule_error(parent, children) from e
         else:
-            return strategy(self.classdb.get_class(parent))
+            one_way_rule = strategy(self.classdb.get_class(parent))
+            if one_way_rule.is_equivalence() and len(one_way_rule.children) > 1:
+                assert isinstance(one_way_rule, Rule)
+                return one_way_rule.to_equivalence_rule()
+            return one_way_rule
         # From now on we are looking for a two way strategy
         assert len(children) == 1
         try:
-- 
2.43.0


From 19ba5b96501ab517dd5e80739f945972ab1c9b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 07/29] fix: forest extractor skips factory rules that do not
 apply

---
 comb_spec_searcher/rule_db/forest.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..94e2967 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -601,13 +601,13 @@ class ForestRuleExtractor:
             else:
                 strats_or_rules = [strat]
             for x in strats_or_rules:
-                if isinstance(x, AbstractStrategy):
-                    try:
-                        yield x(comb_class)
-                    except StrategyDoesNotApply:
-                        continue
-                else:
-                    yield x
+                try:
+                    rule = x(comb_class) if isinstance(x, AbstractStrategy) else x
+                    # A rule given by a factory might only now turn out not to apply.
+                    _ = rule.children
+                except StrategyDoesNotApply:
+                    continue
+                yield rule
 
 
 class RuleDBForest(RuleDBAbstract):
-- 
2.43.0


From e4da28cdbaf828b6c344d1109fa20456b78e53c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:48 +0000
Subject: [PATCH 08/29] fix: rule database membership query uses hashable keys

---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 8b55cec..f993ec8 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -159,7 +159,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From b0974b579967df6d19a40d07699c4db310bbe277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:16 +0000
Subject: [PATCH 09/29] fix: recompute factory rules that do not mention the
 expanded class

---
 comb_spec_searcher/rule_db/forest.py | 7 ++++++-
 comb_spec_searcher/rule_db/forget.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 94e2967..793046d 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -563,7 +563,12 @@ class ForestRuleExtractor:
         """
         Find a rule that have the given rule key.
         """
-        all_classes = (rule_key.parent,) + rule_key.children
+        # A factory may give a rule that does not mention the class it was applied to,
+        # so the other classes are the last resort.
+        key_classes = (rule_key.parent,) + rule_key.children
+        all_classes = itertools.chain(
+            key_classes, (c for c in list(self.classdb) if c not in key_classes)
+        )
         all_normal_rules = itertools.chain.from_iterable(
             self._rules_for_class(c) for c in all_classes
         )
diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 4de4458..1de15af 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -82,7 +82,12 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     def __getitem__(self, key: RuleKey) -> AbstractStrategy:
         if self._flatten(key) not in self.rules:
             raise KeyError(key)
-        possible_labels = (key[0],) + key[1]
+        # A factory may give a rule that does not mention the class it was applied to,
+        # so the other classes are the last resort.
+        key_labels = (key[0],) + key[1]
+        possible_labels = itertools.chain(
+            key_labels, (label for label in list(self.classdb) if label not in key_labels)
+        )
         for label, strat in itertools.product(possible_labels, self.pack):
             comb_class = self.classdb.get_class(label)
             if isinstance(strat, StrategyFactory):
-- 
2.43.0


From 35e2fbf6b7990f2fb332df8d9b0b01cfa0ff1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 10/29] fix: forest rule databases compare by content

---
 comb_spec_searcher/rule_db/forest.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 793046d..9d81bc7 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -56,6 +56,11 @@ class DefaultList(Generic[T]):
         self._default_factory = default_factory
         self._list: List[T] = []
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, DefaultList):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     def _increase_list_len(self, key: int) -> None:
         """
         Increase the length of the list so that the given is valid.
@@ -95,6 +100,11 @@ class Function:
         self._preimage_count: DefaultList[int] = DefaultList(int)
         self._infinity_count: int = 0
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Function):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     @property
     def preimage_count(self) -> List[int]:
         """
@@ -202,6 +212,11 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -638,6 +653,18 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return (
+            self.reverse == other.reverse
+            and self._num_rules == other._num_rules
+            and self.table_method == other.table_method
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 8f49a3aeaa665b80176fb1473758ad57693f6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 11/29] fix: complement subtracts before identifying parameters

---
 .../strategies/constructor/disjoint.py        | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..b2b1680 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,21 +360,23 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
+        # we subtract from total with the parameters of the original parent as the
+        # parent's other objects need not respect the identification of parameters
+        remaining: Terms = Counter()
         for param, value in subterms[0](n).items():
             if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+                remaining[param] += value
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
-            # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
-        return parent_terms_mapped
+                mapped_param = param_map(param)
+                remaining[mapped_param] -= value
+                assert remaining[mapped_param] >= 0
+        terms: Terms = Counter()
+        for param, value in remaining.items():
+            if value:
+                terms[self._parent_param_map(param)] += value
+        return terms
 
     def get_sub_objects(
         self, subobjs: SubObjects, n: int
-- 
2.43.0


From 7e86f5736beba0a99681add7f62867877c5b444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 12/29] fix: reverse of an equivalence rule that merges
 parameters

---
 comb_spec_searcher/strategies/rule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..67b9fd4 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -781,9 +781,11 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> "Rule":
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        rule = self.original_rule.to_reverse_rule(self.child_idx)
+        # The reverse is not an equivalence if some of the parameters are merged.
+        return rule.to_equivalence_rule() if rule.is_equivalence() else rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0


From ce62f5e21d83741c2e586a7c185ea91f446c1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 13/29] fix: map to an atom from a class that is equivalent to
 an atom

---
 comb_spec_searcher/isomorphism.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..6dede5c 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -344,8 +344,9 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         rule1: AbstractRule[ClassType1, ObjType1],
         rule2: AbstractRule[ClassType2, ObjType2],
     ) -> ObjType2:
-        # If atom, we return the minimum object of the corresponding rule.
-        if not rule1.children:
+        # If atom, possibly up to equivalence on one of the sides, we return the
+        # minimum object of the corresponding rule.
+        if not rule1.children or not rule2.children:
             return ParseTreeMap._min_object(rule2)
 
         assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
-- 
2.43.0


From c8f495d5a950a56ba8d4052779359f56fe0b98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:15 +0000
Subject: [PATCH 14/29] fix: no bijection object when a specification has rules
 without object maps

---
 comb_spec_searcher/isomorphism.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 6dede5c..3d3fc70 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -1,4 +1,4 @@
-from itertools import product
+from itertools import chain, product
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -419,6 +419,9 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         other: "CombinatorialSpecification[ClassType2, ObjType2]",
     ) -> Optional["Bijection[ClassType1, ObjType1, ClassType2, ObjType2]"]:
         """Create a bijection object between two specifications if possible."""
+        # The reverse of a rule that is not an equivalence has no object maps.
+        if any(isinstance(rule, ReverseRule) for rule in chain(spec, other)):
+            return None
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
-- 
2.43.0


From 835a9796b7e7937be8d54a7d89aca65fb574a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 15/29] fix: isomorphism test of an empty class against one
 with only empty children

---
 comb_spec_searcher/isomorphism.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 3d3fc70..fc6a17c 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -224,7 +224,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return Isomorphism._INVALID
 
         # If different type of rules are applied, the trees are not isomorphic
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+        if not isinstance(rule1, Rule) or not isinstance(rule2, Rule):
+            return Isomorphism._INVALID
         if not self._constructor_match(rule1, rule2, curr1, curr2):
             return Isomorphism._INVALID
 
-- 
2.43.0


From 6e99dba98ba92d124fb01dc8463413b2fce6f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:38 +0000
Subject: [PATCH 16/29] fix: isomorphism test forgets matches that relied on a
 failed one

---
 comb_spec_searcher/isomorphism.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index fc6a17c..b12a4d5 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -117,6 +117,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
+        # The number of pairs matched without assuming that the current one matches
+        num_matched = len(self._order_map)
+
         # The number of nonempty children
         n = len(non_empty_ind1)
 
@@ -178,6 +181,10 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        # The descendants may have been matched by recursion to the failed match.
+        for pair in list(self._order_map)[num_matched:]:
+            del self._order_map[pair]
+            self._index_data.pop(pair, None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From 6515d1954100ca5ac2bfc6466fdb858ae646803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 17/29] fix: parallel specifications start from the start
 class, not its representative

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..d24c782 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -533,7 +533,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From 07865b2659e66b0daa31f99a965914d0bce29aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 18/29] fix: parallel finder passes over rules of empty classes

---
 comb_spec_searcher/bijection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index d24c782..a096401 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -132,7 +132,9 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
 
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
-            assert not parent.is_empty()
+            # An empty class, all of whose children are empty, is matched with nothing.
+            if parent.is_empty():
+                continue
             if parent.is_atom():
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
-- 
2.43.0


From ae586ab8b056d6061a8f0d1a5121921d2047145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 19/29] fix: parallel finder accepts rules that decompose an
 atom

---
 comb_spec_searcher/bijection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index a096401..2851ee7 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -135,14 +135,14 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
             # An empty class, all of whose children are empty, is matched with nothing.
             if parent.is_empty():
                 continue
-            if parent.is_atom():
+            if not isinstance(rule, Rule):
+                if not parent.is_atom():
+                    raise ValueError("Only atoms can be verified.")
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
                 self.atom_map[eq_par] = (sz, rule.get_terms(sz))
             else:
-                if not isinstance(rule, Rule):
-                    raise ValueError("Only atoms can be verified.")
                 assert len(eq_chi) > 0
             eq_label_rules[eq_par][len(eq_chi)].append((eq_chi, rule))
         return eq_label_rules
-- 
2.43.0


From 406b265ebe3316c69dedf846c7a2ece4f8b27145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:40 +0000
Subject: [PATCH 20/29] fix: isomorphism test follows consecutive equivalence
 rules

---
 comb_spec_searcher/isomorphism.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index b12a4d5..78a95b3 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -191,12 +191,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -243,11 +242,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_rules1: int, eq_rules2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_rules1 + (c1,)
+        t2 = (0,) * eq_rules2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 7978bec3acc982965beeec65e4134bc4025eb9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 21/29] fix: parallel finder compares the rules of labels that
 were assigned separately

---
 comb_spec_searcher/bijection.py | 65 +++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 2851ee7..e039069 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -389,16 +389,26 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs of labels that have been compared given the spec maps.
+        compared: Set[Tuple[int, int]] = set()
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1,
+                id2,
+                matching_info,
+                matching_info1,
+                matching_info2,
+                sp1,
+                sp2,
+                compared,
             )
             if bc:
                 return bool(bc + 1)
@@ -415,9 +425,14 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                compared.add((id1, id2))
 
                 # Construct cleaning sets that are passed down the recursion
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    {(id1, id2)},
+                )
 
                 # If all the children are valid, compared one at a time in the order
                 # they were matched in the first search.
@@ -434,17 +449,19 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                     # Update the cleaning set so any failing ancestor can remove.
                     id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                     id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                    id_sets[2].update(to_clean[2])
                     return True
                 # If failed, remove all descendants that populated the spec maps.
+                compared.difference_update(to_clean[2])
                 ParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -473,6 +490,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        compared: Set[Tuple[int, int]],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -482,8 +500,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If their assignments have been compared, we are done
+        if (id1, id2) in compared:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -591,13 +609,16 @@ class EqPathParallelSpecFinder(
             sp2,
         ) = EqPathParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs of labels that have been compared given the spec maps.
+        compared: Set[Tuple[int, int]] = set()
+
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
         def _rec(
             id1: int,
             id2: int,
-            id_sets: Tuple[Set[int], Set[int]],
+            id_sets: Tuple[Set[int], Set[int], Set[Tuple[int, int]]],
         ) -> bool:
             bc = self._search_matching_info_recursion_base_cases_eq(
                 id1,
@@ -607,6 +628,7 @@ class EqPathParallelSpecFinder(
                 matching_info2,
                 sp1,
                 sp2,
+                compared,
                 self._path[-1],
                 eq_path_tracker,
             )
@@ -619,7 +641,12 @@ class EqPathParallelSpecFinder(
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
-                to_clean: Tuple[Set[int], Set[int]] = (set(), set())
+                compared.add((id1, id2))
+                to_clean: Tuple[Set[int], Set[int], Set[Tuple[int, int]]] = (
+                    set(),
+                    set(),
+                    {(id1, id2)},
+                )
 
                 # Check if the path required for the eq labels actually matches
                 if self._eq_path_matches(
@@ -649,16 +676,18 @@ class EqPathParallelSpecFinder(
                     if valid:
                         id_sets[0].update(to_clean[0], () if rec1 else (id1,))
                         id_sets[1].update(to_clean[1], () if rec2 else (id2,))
+                        id_sets[2].update(to_clean[2])
                         return True
+                compared.difference_update(to_clean[2])
                 EqPathParallelSpecFinder._clean_descendants(
-                    *to_clean, id1, id2, sp1, sp2, rec1, rec2
+                    to_clean[0], to_clean[1], id1, id2, sp1, sp2, rec1, rec2
                 )
             return False
 
         if _rec(
             self._pi1.root_eq_label,
             self._pi2.root_eq_label,
-            (set(), set()),
+            (set(), set(), set()),
         ):
             return sp1, sp2
         return None
@@ -672,6 +701,7 @@ class EqPathParallelSpecFinder(
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        compared: Set[Tuple[int, int]],
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
     ) -> int:
@@ -687,9 +717,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
-        # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        # If both ids have been compared we still need to check if they are valid in
+        # terms of eq paths since we may have arrived from different parents.
+        if (id1, id2) in compared:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -697,7 +727,7 @@ class EqPathParallelSpecFinder(
                 # can still be incompatible due to this current path's atom labels.
                 should_check = (id1, id2) not in self._path_ancestors
                 if should_check and not self._validate_atoms_for_existing_entries(
-                    id1, id2, sp1, sp2, matching_info, set()
+                    id1, id2, sp1, sp2, matching_info, compared, set()
                 ):
                     return EqPathParallelSpecFinder._INVALID
                 return EqPathParallelSpecFinder._VALID
@@ -711,6 +741,7 @@ class EqPathParallelSpecFinder(
         sp1: SpecMap,
         sp2: SpecMap,
         matching_info: MatchingInfo,
+        compared: Set[Tuple[int, int]],
         mem: Set[Tuple[int, int]],
     ) -> bool:
         """Check if atoms are valid for a given path, when initial ids have already
@@ -722,6 +753,8 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        if (id1, id2) not in compared:
+            return True
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
@@ -734,7 +767,7 @@ class EqPathParallelSpecFinder(
         ):
             self._path.append((id1, id2, j1, j2))
             check_descendant = self._validate_atoms_for_existing_entries(
-                child1, child2, sp1, sp2, matching_info, mem
+                child1, child2, sp1, sp2, matching_info, compared, mem
             )
             self._path.pop()
             if not check_descendant:
-- 
2.43.0


From 3c3099fc20ff48e03ee8f1002be2d55233ed379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 22/29] fix: parallel finder compares the equivalence paths
 that lead to atoms

---
 comb_spec_searcher/bijection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index e039069..b17bbc5 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -716,6 +716,10 @@ class EqPathParallelSpecFinder(
             if not self._atom_path_match(id1, id2, sp1, sp2):
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
+            if not self._eq_path_matches(
+                id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
+            ):
+                return EqPathParallelSpecFinder._INVALID
             return EqPathParallelSpecFinder._VALID
         # If both ids have been compared we still need to check if they are valid in
         # terms of eq paths since we may have arrived from different parents.
-- 
2.43.0


From d495ab3ad5a246914c9d56bddc872880049b3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 23/29] fix: parallel finder remembers equivalence path
 comparisons per path

---
 comb_spec_searcher/bijection.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index b17bbc5..f85afc4 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -59,10 +59,7 @@ RuleClassification = DefaultDict[
 ]
 EqPathTracker = DefaultDict[
     Tuple[int, int],
-    DefaultDict[
-        Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
-    ],
+    DefaultDict[Tuple[int, int], Dict[Tuple, bool]],
 ]
 
 
@@ -800,7 +797,8 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
+        # The path goes from a child of the grandparent's rule to the parent's rule.
+        children = (sp1[id1], sp2[id2], sp1.get(pid1), sp2.get(pid2), idx1, idx2)
         children_cache = cache[(id1, id2)][(pid1, pid2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
-- 
2.43.0


From f7f1cf1738ca14e39069122e34d1e80b34177e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 24/29] fix: strategy equality ignores the generic alias an
 instance was created through

---
 comb_spec_searcher/strategies/strategy.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..588f298 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,15 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(strategy: CSSstrategy) -> Dict[str, Any]:
+    """
+    Return the attributes of the strategy that were set by its class. Creating an
+    instance through a generic alias, as in EmptyStrategy[W, Word](), makes the
+    typing module record the alias on the instance, which is not one of those.
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +256,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +956,9 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        if not isinstance(other, StrategyFactory):
+            return NotImplemented
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From b2723d24756bafdfbb119daeca84be432ff432ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 25/29] fix: recomputed strategies ignore rules from an empty
 class to itself

---
 comb_spec_searcher/rule_db/forget.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 1de15af..db7c341 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -105,6 +105,9 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
                 else:
                     rule = x
                 try:
+                    if rule.children == (rule.comb_class,) and not key[1]:
+                        # The searcher does not add a rule from an empty class to itself.
+                        continue
                     if any(
                         c not in self.classdb for c in (rule.comb_class, *rule.children)
                     ):
-- 
2.43.0


From 73eadfeb7addebf60ed15fa23f36c95499ae7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 26/29] fix: expanding a verified class copies the rules that
 other rules were made from

---
 comb_spec_searcher/specification.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..4d85f78 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -38,7 +38,7 @@ from .strategies import (
     VerificationRule,
     VerificationStrategy,
 )
-from .strategies.rule import AbstractRule
+from .strategies.rule import AbstractRule, EquivalenceRule, ReverseRule
 from .utils import (
     RecursionLimit,
     maple_equations,
@@ -49,6 +49,16 @@ from .utils import (
 __all__ = ("CombinatorialSpecification",)
 
 
+def _copy_rule(rule: AbstractRule) -> AbstractRule:
+    """Return a copy of the rule, and of the rule it was made from if any."""
+    new_rule = copy(rule)
+    if isinstance(new_rule, (EquivalenceRule, ReverseRule)):
+        original_rule = _copy_rule(new_rule.original_rule)
+        assert isinstance(original_rule, Rule)
+        new_rule.original_rule = original_rule
+    return new_rule
+
+
 class CombinatorialSpecification(
     Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -218,9 +228,9 @@ class CombinatorialSpecification(
         for cc, rule in self.rules_dict.items():
             if cc != comb_class:
                 if isinstance(rule, EquivalencePathRule):
-                    spec_rules.extend(map(copy, rule.rules))
+                    spec_rules.extend(map(_copy_rule, rule.rules))
                 else:
-                    spec_rules.append(copy(rule))
+                    spec_rules.append(_copy_rule(rule))
 
         ruledb = RuleDBForest(reverse=False, rule_cache=spec_rules)
         css = CombinatorialSpecificationSearcher(
-- 
2.43.0


From 083a7ae5a2dc623f8e7675d4f54af7398ffe6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 27/29] fix: sanity checking a rule reordered the lists of
 objects in its cache under running generators

---
 comb_spec_searcher/strategies/rule.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 67b9fd4..4a2e8c0 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -10,7 +10,7 @@ import abc
 import random
 from collections import defaultdict
 from importlib import import_module
-from itertools import chain, product
+from itertools import product
 from typing import (
     TYPE_CHECKING,
     Callable,
@@ -585,16 +585,17 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
         tempobjects = self.subobjects
         self.subobjects = tuple(child.get_objects for child in self.children)
         try:
-            rule_objects = self.get_objects(n)
+            # The lists are also in the cache of the rule and should be left as they are.
+            rule_objects = {k: sorted(v) for k, v in self.get_objects(n).items()}
         except (NotImplementedError, SpecificationNotFound) as e:
             logger.warning(
                 "Skipping sanity checking generation for rule\n%s\n%s", self, e
             )
             return True
         self.subobjects = tempobjects
-        actual_objects = self.comb_class.get_objects(n)
-        for obj_list in chain(rule_objects.values(), actual_objects.values()):
-            obj_list.sort()
+        actual_objects = {
+            k: sorted(v) for k, v in self.comb_class.get_objects(n).items()
+        }
         if actual_objects != rule_objects:
             raise SanityCheckFailure(
                 f"The following rule failed sanity check:\n"
-- 
2.43.0


From 345986454c0b3cf7b7d13d1dfbd0f4f7996e5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 28/29] fix: a sanity check cut short by NotImplementedError
 left its own sources in the rule

---
 comb_spec_searcher/strategies/rule.py | 35 ++++++++++++---------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 4a2e8c0..bf6ca4f 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -560,7 +560,8 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
         except (NotImplementedError, SpecificationNotFound) as e:
             logger.warning("Skipping sanity checking counts for rule\n%s\n%s", self, e)
             return True
-        self.subterms = temp_subterms
+        finally:
+            self.subterms = temp_subterms
 
         # REMINDER: In python versions 3.9 and older, the counters Counter() and
         # Counter({tuple(): 0}) are considered distinct. We want them to be treated
@@ -592,7 +593,8 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
                 "Skipping sanity checking generation for rule\n%s\n%s", self, e
             )
             return True
-        self.subobjects = tempobjects
+        finally:
+            self.subobjects = tempobjects
         actual_objects = {
             k: sorted(v) for k, v in self.comb_class.get_objects(n).items()
         }
@@ -650,29 +652,22 @@ class Rule(AbstractRule[CombinatorialClassType, CombinatorialObjectType]):
         self.subrecs = tuple(fake_subrec(child) for child in self.children)
         self.subterms = tuple(child.get_terms for child in self.children)
         try:
-            self.random_sample_object_of_size(n, **possible_parameters[0][0])
+            for paramd, paramt in possible_parameters:
+                obj = self.random_sample_object_of_size(n, **paramd)
+                if obj not in actual_objects[paramt]:
+                    raise SanityCheckFailure(
+                        f"The following rule failed sanity check:\n"
+                        f"{self}\n"
+                        f"Failed for size {n}:\n"
+                        f"Sampled the object {obj} for the parameters {paramd}\n"
+                    )
         except NotImplementedError:
             # Skipping testing rules that have not implemented random_sampling.
+            return True
+        finally:
             self.subsamplers = tmpsamplers
             self.subrecs = tmpsubrec
             self.subterms = tmpsubterms
-            return True
-
-        for paramd, paramt in possible_parameters:
-            obj = self.random_sample_object_of_size(n, **paramd)
-            if obj not in actual_objects[paramt]:
-                self.subsamplers = tmpsamplers
-                self.subrecs = tmpsubrec
-                self.subterms = tmpsubterms
-                raise SanityCheckFailure(
-                    f"The following rule failed sanity check:\n"
-                    f"{self}\n"
-                    f"Failed for size {n}:\n"
-                    f"Sampled the object {obj} for the parameters {paramd}\n"
-                )
-        self.subsamplers = tmpsamplers
-        self.subrecs = tmpsubrec
-        self.subterms = tmpsubterms
         return True
 
 
-- 
2.43.0


From d12fc01d25ada8897d0946c9abf850dcc9e0a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:10 +0000
Subject: [PATCH 29/29] fix: computing with a long chain of rules runs into the
 recursion limit

The recursion limit was n times the number of rules, which is nothing for small
sizes, and get_terms, get_objects and generate_objects_of_size did not raise it.
---
 comb_spec_searcher/specification.py | 32 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index 4d85f78..4596e9d 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -3,9 +3,10 @@ A combinatorial specification is a set rules of the form a -> b1, ..., bk
 where each of the bi appear exactly once on the left hand side of some rule.
 """
 
+import sys
 from copy import copy
 from functools import reduce
-from itertools import chain
+from itertools import chain, islice
 from operator import mul
 from typing import Any, Dict, Generic, Iterable, Iterator, List, Optional, Set, Union
 
@@ -458,21 +459,22 @@ class CombinatorialSpecification(
         Return the number of objects with the given parameters.
         Note, 'n' is reserved for the size of the object.
         """
-        limit = n * self.number_of_rules()
-        with RecursionLimit(limit):
+        with self._recursion_limit(n):
             return self.root_rule.count_objects_of_size(n, **parameters)
 
     def get_terms(self, n: int) -> Terms:
         """
         Return the terms for given n.
         """
-        return self.root_rule.get_terms(n)
+        with self._recursion_limit(n):
+            return self.root_rule.get_terms(n)
 
     def get_objects(self, n: int) -> Objects:
         """
         Return the objects for given n.
         """
-        return self.root_rule.get_objects(n)
+        with self._recursion_limit(n):
+            return self.root_rule.get_objects(n)
 
     def generate_objects_of_size(
         self, n: int, **parameters
@@ -481,7 +483,12 @@ class CombinatorialSpecification(
         Return the objects with the given parameters.
         Note, 'n' is reserved for the size of the object.
         """
-        yield from self.root_rule.generate_objects_of_size(n, **parameters)
+        objects = self.root_rule.generate_objects_of_size(n, **parameters)
+        with self._recursion_limit(n):
+            # The recursion happens when the first object is asked for.
+            first = list(islice(objects, 1))
+        yield from first
+        yield from objects
 
     def random_sample_object_of_size(
         self, n: int, **parameters: int
@@ -490,14 +497,23 @@ class CombinatorialSpecification(
         Return a uniformly random object of the given size. This is done using
         the "recursive" method.
         """
-        limit = n * self.number_of_rules()
-        with RecursionLimit(limit):
+        with self._recursion_limit(n):
             if self.count_objects_of_size(n, **parameters) > 0:
                 return self.root_rule.random_sample_object_of_size(n, **parameters)
             raise InvalidOperationError(
                 "The root does not contain objects of this size"
             )
 
+    def _recursion_limit(self, n: int) -> RecursionLimit:
+        """
+        Return a recursion limit that allows to go once through each of the rules for
+        each of the sizes up to n.
+        """
+        frames_per_rule = 10
+        return RecursionLimit(
+            sys.getrecursionlimit() + frames_per_rule * (n + 1) * self.number_of_rules()
+        )
+
     def number_of_rules(self) -> int:
         return len(self.rules_dict)
 
-- 
2.43.0

