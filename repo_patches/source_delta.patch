From d8af45f5822575e546e2169de877d437226d17d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 01/30] fix: make Text emit an empty string when asked for zero
 words

A text value with zero words was dropped from the output of emit_many (so
Text(...)(2) could return one value), made emit raise an IndexError, and
made the number of separators requested come out too small, so the wrong
separators were used for the other values in the same call.
---
 src/fauxdoc/emitters/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..ea0f3a9 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,9 +287,12 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(length - 1 for length in lengths if length)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
-            if length:
+            if not length:
+                texts.append('')
+            else:
                 render = [next(words)]
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-- 
2.43.0


From 6b251efa08f562b40b69e0473a62a7ae3f3f463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:33 +0000
Subject: [PATCH 02/30] fix: count each possible length once in Word and Text
 num_unique_values

Lengths listed more than once (e.g. to make them more likely) were counted
repeatedly, overstating the number of unique values, and a possible length
of zero words made Text report a fraction.
---
 src/fauxdoc/emitters/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index ea0f3a9..5a18b64 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -111,7 +111,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
             poss_items = self._emitters['length'].items
-            self._num_unique_values = sum([nchars ** i for i in poss_items])
+            self._num_unique_values = sum([nchars ** i for i in set(poss_items)])
 
     def reset(self) -> None:
         """See superclass."""
@@ -217,7 +217,11 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         sep_em_has_uv = self._emitters['sep'].num_unique_values is not None
         if word_em_has_uv and sep_em_has_uv and hasattr(numwords, 'items'):
             nums: List[int] = []
-            for length in numwords.items:
+            for length in set(numwords.items):
+                if not length:
+                    # Zero words is always one value: an empty string.
+                    nums.append(1)
+                    continue
                 n_uw = self._emitters['word'].num_unique_values ** length
                 n_us = self._emitters['sep'].num_unique_values ** (length - 1)
                 nums.append(n_uw * n_us)
-- 
2.43.0


From 2f99cdcaa1673588545130f5802c7df0088e8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 03/30] fix: let weighted_shuffle handle zero weights and an
 RNG value of 0.0

Shuffling all (or most) items raised a ZeroDivisionError if any weight was
0, as happens with e.g. gaussian_choice once the tail underflows, or a
ValueError ('math domain error') if the RNG returned 0.0. Sampling a few
items raised a ValueError if fewer than that many had a nonzero weight.
Items without weight are now only selected after all other items.
---
 src/fauxdoc/mathtools.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..6519b53 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -1,6 +1,7 @@
 """Contains math utility functions used in the data module."""
 import math
 import random
+import sys
 from typing import List, Optional, Sequence
 
 from fauxdoc.typing import F, T
@@ -129,7 +130,10 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # An item with no weight gets the lowest possible score. (And, an
+        # RNG value of 0.0 has no log, so we substitute a tiny float.)
+        scores = zip((math.log(rng.random() or sys.float_info.min) / w
+                      if w else -math.inf for w in weights), items)
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -149,7 +153,8 @@ def weighted_shuffle(items: Sequence[T],
         )
 
     # The k threshold where the `high_k` method becomes faster than the
-    # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # `low_k` is k =~ 42% of the total number of items. However,
+    # `low_k` can't select anything that has a weight of 0.
+    if number <= min(nitems * 0.42, sum(1 for w in weights if w)):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From a9a5385b12685fb2a4681b7576f90ed9da27ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 04/30] fix: calculate poisson for large x values without
 overflowing

Values of x above 170 raised an OverflowError, so poisson_choice could not
be used with more than 170 items (fewer, for a large mu).
---
 src/fauxdoc/mathtools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 6519b53..e78f57d 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -20,7 +20,14 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # The intermediate values are too big for a float, even though
+        # the result is not: use logarithms instead.
+        if not mu:
+            return 0.0
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From ba79ccbadf96474fdc7ec2e880bb361ad2bf545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 05/30] fix: clamp the probability given to chance

Values outside of 0.0 to 1.0 are documented to behave like 0.0 or 1.0, but
they were used as-is to calculate weights; large values made the total
weight 0, raising a ValueError when emitting.
---
 src/fauxdoc/emitters/choice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..3999198 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -434,4 +434,5 @@ def chance(chance: float, rng_seed: Any = None) -> Choice[bool]:
             True if chance >= 1.0.
         rng_seed: (Optional.) 'rng_seed' kwarg to pass to Choice.
     """
+    chance = clamp(chance, mn=0.0, mx=1.0)
     return Choice([True, False], [chance, 1.0 - chance], rng_seed=rng_seed)
-- 
2.43.0


From 87729f35e707cbb49be813e12471153b8398b057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:40 +0000
Subject: [PATCH 06/30] fix: reject an empty weights sequence when initializing
 Choice

An empty weights or cum_weights sequence was treated as no weights, and not
as a number of weights that doesn't match the number of items. (Setting the
attributes to an empty sequence already raised the ValueError.)
---
 src/fauxdoc/emitters/choice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3999198..23e33c1 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -111,7 +111,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
                 f"The 'items' argument must be a non-empty sequence. "
                 f"(Provided: {items})"
             )
-        if weights and cum_weights:
+        if weights is not None and cum_weights is not None:
             raise TypeError(
                 "Only one of 'weights' or 'cum_weights' (cumulative weights) "
                 "may be supplied -- not both."
@@ -121,8 +121,8 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         self._replace = replace or replace_only_after_call
         self._replace_only_after_call = replace_only_after_call
         self.noun = noun
-        weights_to_set = weights or cum_weights
-        weights_are_cumulative = bool(cum_weights)
+        weights_to_set = cum_weights if weights is None else weights
+        weights_are_cumulative = cum_weights is not None
         self._set_all_weights(weights_to_set, weights_are_cumulative, items)
         super().__init__(items=items, rng_seed=rng_seed)
 
-- 
2.43.0


From 094115ee372dd1171f4dd218c754442fe178708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 07/30] fix: count unique values for emitters of unhashable
 values

num_unique_values raised a TypeError for e.g. Static([1, 2]) or a Choice of
dicts. For a Choice without replacement, requesting too many values then
raised that same TypeError instead of the uniqueness ValueError.
---
 src/fauxdoc/emitters/choice.py |  4 ++--
 src/fauxdoc/mixins.py          | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 23e33c1..7570adb 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -4,7 +4,7 @@ from typing import Any, Optional, List, Sequence
 
 from fauxdoc.emitter import Emitter
 from fauxdoc.mathtools import clamp, gaussian, poisson, weighted_shuffle
-from fauxdoc.mixins import RandomMixin, ItemsMixin
+from fauxdoc.mixins import count_unique, RandomMixin, ItemsMixin
 from fauxdoc.typing import T
 
 
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..cc90e78 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -1,11 +1,24 @@
 """Contains mixin classes."""
 import random
-from typing import Any, Generic, Sequence
+from typing import Any, Generic, List, Sequence
 
 from fauxdoc.group import ObjectMap
 from fauxdoc.typing import EmitterLike, T
 
 
+def count_unique(values: Sequence[Any]) -> int:
+    """Returns the number of unique values in a sequence."""
+    try:
+        return len(set(values))
+    except TypeError:
+        # At least one value is not hashable, so we have to compare.
+        unique: List[Any] = []
+        for value in values:
+            if value not in unique:
+                unique.append(value)
+        return len(unique)
+
+
 class RandomMixin:
     """Mixin class for defining components that need RNG.
 
@@ -92,7 +105,7 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return count_unique(self._items)
 
 
 class ChildrenMixin:
-- 
2.43.0


From 9bf2cfff44695bae75f5be1988d00242580435cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 08/30] fix: Field is single-valued if its repeat_emitter only
 emits None

Only emitters with items equal to [None] were recognized; other emitters
that only ever emit None, such as Sequential((None,)), made multi_valued
True for a field that never emits a list.
---
 src/fauxdoc/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..e93eb5f 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,7 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            return any(i is not None for i in self.repeat_emitter.items)
         return True
 
     @property
-- 
2.43.0


From 3ded5116557fb8aafe94bb3517c85e375e76e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:41 +0000
Subject: [PATCH 09/30] fix: do not let a negative number rewind a Choice
 without replacement

Requesting a negative number of items moved the position in the shuffled
items backward (and increased num_unique_items), so items that had already
been emitted were emitted again.
---
 src/fauxdoc/emitters/choice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 7570adb..d887cb4 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -308,6 +308,8 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
 
     def _choice_without_replacement(self, number: int) -> List[T]:
         """Makes choices without replacing items."""
+        # Like other emitters, emit nothing if `number` is negative.
+        number = max(number, 0)
         if number > self._num_unique_items:
             self.raise_uniqueness_violation(number)
         if not self._replace:
-- 
2.43.0


From b9803a57df0959ed8be184276494215b33a4b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 10/30] fix: keep Iterative emitting after an error in the
 user's iterator

If the iterator (or factory) provided to an Iterative emitter raised an
error, then the emitter was stuck until the next reset: emit raised a
StopIteration, and emit_many silently returned an empty list.
---
 src/fauxdoc/emitters/fixed.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/fixed.py b/src/fauxdoc/emitters/fixed.py
index 28cbcd6..b12e4bf 100644
--- a/src/fauxdoc/emitters/fixed.py
+++ b/src/fauxdoc/emitters/fixed.py
@@ -140,9 +140,14 @@ class Iterative(Emitter[T]):
             factory: A callable that takes no args and returns an
                 iterator.
         """
-        while True:
-            for item in factory():
-                yield item
+        def _iterate_once(_: None) -> Iterator[T]:
+            yield from factory()
+
+        # Note the outer iterator isn't a generator. If it were, any
+        # error in the user's iterator would terminate it for good.
+        return itertools.chain.from_iterable(
+            map(_iterate_once, itertools.repeat(None))
+        )
 
     @property
     def iterator_factory(self) -> Callable[[], Iterator[T]]:
-- 
2.43.0


From 459a4c447c65718debe1c8b61e79c74c257d945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:50 +0000
Subject: [PATCH 11/30] fix: only ignore missing methods in
 GroupMixin.do_method

An AttributeError raised while running a method was ignored as if the
member did not have the method, leaving that member (e.g. a Field being
reset) silently half-updated.
---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..a071dd3 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -51,9 +51,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From 1b7d6d83793a6d46688ed225c0f236a18b6a0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 12/30] fix: allow copying an ObjectMap

ObjectMap.copy (and copy.copy, copy.deepcopy, pickle, and fromkeys) raised
a TypeError, because OrderedDict instantiates the class without args. This
also made emitters and fields that have children impossible to deepcopy.
---
 src/fauxdoc/group.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index a071dd3..5c538db 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,6 +1,6 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, Mapping
+from typing import Any, Generic, Iterable, Mapping, Optional
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -97,14 +97,14 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Optional[Mapping[str, T]] = None) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-            objects: Your initial dict that maps keys to objects in
-                this group.
+            objects: (Optional.) Your initial dict that maps keys to
+                objects in this group. Default is an empty group.
         """
-        super().__init__(objects)
+        super().__init__({} if objects is None else objects)
 
     @property
     def objects_iterable(self) -> Iterable[T]:
-- 
2.43.0


From a22038bed9f1bf7893f5041a40eeaab6d2da262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 13/30] fix: return the right members when slicing or copying
 an ObjectGroup

ObjectGroup takes its members as star args, while UserList instantiates new
lists using one list arg. So slicing, copy, +, and * returned a group with
one member: a list of the expected members.
---
 src/fauxdoc/group.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 5c538db..f6e50ad 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,6 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, Mapping, Optional
+import copy
+from typing import Any, Generic, Iterable, Mapping, Optional, overload
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -79,6 +80,44 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """
         super().__init__(objects)
 
+    def _regroup(self, objects: Iterable[T]) -> 'ObjectGroup[T]':
+        """Returns a copy of this group that contains other objects.
+
+        UserList methods that return a new list try to instantiate this
+        class using one list arg. Those are overridden to use this.
+        """
+        group: 'ObjectGroup[T]' = copy.copy(self)
+        group.data = list(objects)
+        return group
+
+    @overload  # type: ignore[override]
+    def __getitem__(self, i: int) -> T:
+        ...
+
+    @overload
+    def __getitem__(self, i: slice) -> 'ObjectGroup[T]':
+        ...
+
+    def __getitem__(self, i: Any) -> Any:
+        if isinstance(i, slice):
+            return self._regroup(self.data[i])
+        return self.data[i]
+
+    def __add__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._regroup([*self.data, *other])
+
+    def __radd__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._regroup([*other, *self.data])
+
+    def __mul__(self, n: int) -> 'ObjectGroup[T]':
+        return self._regroup(self.data * n)
+
+    __rmul__ = __mul__
+
+    def copy(self) -> 'ObjectGroup[T]':
+        """Returns a shallow copy of this group."""
+        return self._regroup(self.data)
+
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-- 
2.43.0


From 623d8dd2a5d7988ee02dd25c31b9ffac94047f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 14/30] fix: do not use up source field values when creating
 BasedOnFields

Setting the action of a BasedOnFields emitter called each source field, just
to check the action's signature. That value was lost, so (e.g.) a hidden
field with an Iterative emitter started at the second value as soon as a
field was based on it. Now the signature is checked using existing values.
(Values are still emitted if the signature does not work, to raise the same
error as before, or if the action has no signature, like some builtins.)
---
 src/fauxdoc/emitters/fromfields.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..b7d5f4a 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -251,19 +251,35 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
             action: See the 'action' attribute.
         """
         self._action = action
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
+            # If possible, check the signature without emitting values,
+            # to avoid changing the state of the source fields.
+            if not self._action_accepts_previous():
+                self._try_mock_action(lambda field: field())
         except TypeError:
             raise
         finally:
             self.reset()
 
+    def _try_mock_action(self, get_value: Callable[..., Any]) -> None:
+        """Tries a mock `action` call; `get_value` is run per field."""
+        if len(self.source) == 1:
+            self._action.try_mock_call(get_value(self.source[0]))
+        else:
+            self._action.try_mock_call(**{
+                field.name: get_value(field) for field in self.source
+            })
+
+    def _action_accepts_previous(self) -> bool:
+        """True if the `action` signature is known and works."""
+        if self._action.signature is None:
+            return False
+        try:
+            self._try_mock_action(lambda field: field.previous)
+        except TypeError:
+            return False
+        return True
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0


From 9474ecec28072e75c1cb3dac9a43c354305e9079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 15/30] fix: make a dtrange empty if step goes away from stop

Like with range, a stop value that can't be reached from the start should
give an empty range. Instead this gave a negative length, so len (and list,
bool, etc.) raised a ValueError. Also: use the length that was cast to an
int, so that a castable length (e.g. '7') works as the error message says.
---
 src/fauxdoc/dtrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..7deeaa6 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -94,7 +94,7 @@ class DateOrTimeRange(Sequence[DT]):
         self.length = length
         self.start = start
         self.step = step
-        self._index_range = range(0, length)
+        self._index_range = range(0, self._length)
 
     @property
     def start(self) -> DT:
@@ -161,7 +161,7 @@ class DateOrTimeRange(Sequence[DT]):
         if hasattr(self, '_length'):
             raise AttributeError("Can't set attribute 'length'")
         try:
-            self._length = int(length_val)
+            self._length = max(int(length_val), 0)
         except ValueError as e:
             raise type(e)(
                 "Attribute 'length' must be (or be castable to) an int."
-- 
2.43.0


From 3fa582c1b581e75a925d1334bb606aa22370d078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 16/30] fix: allow a full 24-hour time dtrange with a negative
 step

With a negative step, a time range where start equals stop raised (or later
caused) an error instead of producing the full 24 hours in reverse.
---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 7deeaa6..37dc080 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,7 +349,8 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        days = 1 if step_td > timedelta(0) else -1
+        stop_refdate = start_refdate + timedelta(days=days)
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-- 
2.43.0


From ae2fa6df7cd4c4eaaf22331d6e9099ede74e32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 17/30] fix: raise a ValueError if the step for dtrange is zero

Like with range, this is an invalid value. It raised a ZeroDivisionError.
---
 src/fauxdoc/dtrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 37dc080..db4bfec 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -343,6 +343,9 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
             "timedelta: weeks, days, hours, minutes, seconds, or microseconds."
         )
 
+    if not step_td:
+        raise ValueError("The 'step' argument must not be zero.")
+
     if isinstance(start_obj, time) and start_obj == stop_obj:
         # This is kind of hacky but the simplest way I could think of
         # to accommodate the (common) edge case where you want the full
-- 
2.43.0


From df0b8f6a8aed63d875fa46fca9ce2d42c1dbb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 18/30] fix: keep the time zone for values in a dtrange of
 times

Values of a range of time zone-aware time objects were naive, and so were
neither equal to the start of the range nor in the range.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index db4bfec..9998e32 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From 2b2aa8a691c38e976a6c09317013df4f3ca12bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 19/30] fix: allow slicing a dtrange using any step

Slicing raised an error if the step of the slice was too large (an
OverflowError or, for time ranges, a ValueError for steps of 24 hours or
more), even if the slice had only one value or none. Likewise for an empty
slice at the end of a range that ends on the last possible date.
---
 src/fauxdoc/dtrange.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 9998e32..206a1c1 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,8 +179,16 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
+            if len(slc) == 0:
+                return type(self)(self.start, 0, self.step)
             start = _index_to_value(slc.start, self.start, self.step)
-            return type(self)(start, len(slc), self.step * slc.step)
+            if len(slc) == 1:
+                return type(self)(start, 1, self.step)
+            step = self.step * slc.step
+            if isinstance(start, time):
+                # `time` values wrap at midnight, so steps must as well.
+                step %= timedelta(days=1 if step > timedelta(0) else -1)
+            return type(self)(start, len(slc), step)
         try:
             index_num = self._index_range[index]
         except IndexError:
-- 
2.43.0


From 1bffc99a65a53c9bc902f33d16677ce552388dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 20/30] fix: allow testing a dtrange for values that don't
 compare

Searching a date range for a datetime value, or searching for an aware
value in a naive range (or vice-versa), raised a TypeError. Such values are
not equal to any value in the range, so they are not in the range.
---
 src/fauxdoc/dtrange.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 206a1c1..1a926a4 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -248,7 +248,11 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # Comparing e.g. date to datetime, or naive to aware.
+                raise ValueError(f'{value} is not in range')
             if not rem and index in self._index_range[start:stop]:
                 return index
         raise ValueError(f'{value} is not in range')
-- 
2.43.0


From ae200d5aa39201b1fbcbc9b11573bb8799ea77ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:43 +0000
Subject: [PATCH 21/30] fix: find values in a dtrange of times that wraps more
 than once

If a time range lasts for more than one day, then in, index, and count only
considered the first day. Values were reported as not in the range if the
step is such that they only occur on a later day, and count was at most 1.
---
 src/fauxdoc/dtrange.py | 48 +++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 1a926a4..1a0fd97 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -1,6 +1,8 @@
 """Contains an implementation of a custom date/time range type."""
 from datetime import date, datetime, time, timedelta
-from typing import Optional, overload, Sequence, Tuple, TypeVar, Union
+from typing import (
+    Iterator, Optional, overload, Sequence, Tuple, TypeVar, Union
+)
 
 
 DT = TypeVar('DT', date, datetime, time)
@@ -234,6 +236,29 @@ class DateOrTimeRange(Sequence[DT]):
         step = self.step if my_len > 1 else None
         return hash((type(self), my_len, start, step))
 
+    def _find(self, value: object) -> Iterator[int]:
+        """Generates the indexes where a value occurs, in order."""
+        if not isinstance(value, type(self.start)):
+            return
+        if not self._step:
+            if value == self._start:
+                yield from self._index_range
+            return
+        try:
+            index, rem = _value_to_index(value, self._start, self._step)
+        except TypeError:
+            # Comparing e.g. date to datetime, or naive to aware.
+            return
+        # Values in a time range wrap at midnight and can recur if the
+        # range lasts for more than a day: check each day.
+        day = timedelta(days=1 if self._step > timedelta(0) else -1)
+        while index < len(self):
+            if not rem and index >= 0:
+                yield index
+            if not isinstance(self._start, time):
+                break
+            index, rem = divmod(self._step * index + rem + day, self._step)
+
     def index(self,
               value: DT,
               start: Optional[int] = None,
@@ -247,26 +272,15 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
-            try:
-                index, rem = _value_to_index(value, self._start, self._step)
-            except TypeError:
-                # Comparing e.g. date to datetime, or naive to aware.
-                raise ValueError(f'{value} is not in range')
-            if not rem and index in self._index_range[start:stop]:
+        valid = self._index_range[start:stop]
+        for index in self._find(value):
+            if index in valid:
                 return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
         """Returns True if a value is in this range."""
-        if isinstance(value, type(self.start)):
-            try:
-                self.index(value)
-            except ValueError:
-                pass
-            else:
-                return True
-        return False
+        return any(True for _ in self._find(value))
 
     def count(self, value: DT) -> int:
         """Returns the number of times a value occurs in this range.
@@ -274,7 +288,7 @@ class DateOrTimeRange(Sequence[DT]):
         Args:
             value: A date, time, or datetime that may be in this range.
         """
-        return 1 if value in self else 0
+        return sum(1 for _ in self._find(value))
 
 
 def _parse_user_date(val: Union[DT, str], label: str) -> DT:
-- 
2.43.0


From ad960ef696832d53c3b443298384d4590c5feed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:46 +0000
Subject: [PATCH 22/30] fix: make equivalent ranges of times equal to each
 other

Time ranges wrap at midnight, so e.g. steps of 23 hours and -1 hour give the
same values, but such ranges weren't equal and hashed differently.
---
 src/fauxdoc/dtrange.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 1a0fd97..f25b133 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -215,6 +215,14 @@ class DateOrTimeRange(Sequence[DT]):
             self._str_repr = f"{type(self).__name__}({desc})"
         return self._str_repr
 
+    @property
+    def _wrapped_step(self) -> timedelta:
+        """The step, normalized so ranges of equal values are equal."""
+        if isinstance(self.start, time):
+            # E.g., -1 hour and 23 hours are the same, since it wraps.
+            return self.step % timedelta(days=1)
+        return self.step
+
     def __eq__(self, other: object) -> bool:
         """Returns True if this range is equal to a comparison range."""
         if not isinstance(other, type(self)):
@@ -227,13 +235,15 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
-        return (self.start, self.step) == (other.start, other.step)
+        return (self.start, self._wrapped_step) == (
+            other.start, other._wrapped_step
+        )
 
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
         my_len = len(self)
         start = self.start if my_len > 0 else None
-        step = self.step if my_len > 1 else None
+        step = self._wrapped_step if my_len > 1 else None
         return hash((type(self), my_len, start, step))
 
     def _find(self, value: object) -> Iterator[int]:
-- 
2.43.0


From d7be8d3cdf3bd1805d73d7a817af8d0927a86437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 23/30] fix: get poisson values right where exp(-mu) is too
 small

---
 src/fauxdoc/mathtools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index e78f57d..00eeeac 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -21,13 +21,16 @@ def poisson(x: int, mu: float = 1) -> float:
         might occur.
     """
     try:
-        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+        exp_neg_mu = math.exp(-1 * mu)
+        if exp_neg_mu >= sys.float_info.min:
+            return (mu ** x) * exp_neg_mu / math.factorial(x)
     except OverflowError:
-        # The intermediate values are too big for a float, even though
-        # the result is not: use logarithms instead.
-        if not mu:
-            return 0.0
-        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
+        pass
+    # The intermediate values are too big or too small for a float, even
+    # though the result is not: use logarithms instead.
+    if not mu:
+        return 0.0
+    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From 01b48b58b7c2607a1b396684e4be8e0fde73eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 24/30] fix: return 0 for gaussian values too far from the mean
 to square

---
 src/fauxdoc/mathtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 00eeeac..760920c 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -48,7 +48,11 @@ def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
         A float value representing the relative probability that a
         random variable would be approximately x.
     """
-    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
+    try:
+        term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
+    except OverflowError:
+        # The squared distance from the mean is too big for a float.
+        return 0.0
     term2 = 1 / (math.sqrt(2 * math.pi) * sigma)
     return term1 * term2
 
-- 
2.43.0


From 758972ef9d4a6e8eca9380f08413a020deb67052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 25/30] fix: don't swallow AttributeErrors raised while seeding

RandomWithChildrenMixin.seed ignored every AttributeError raised by the seed
method of a cooperating base class. RandomMixin always provides the method.
---
 src/fauxdoc/mixins.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index cc90e78..ffe2b19 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -167,7 +167,4 @@ class RandomWithChildrenMixin(RandomMixin, ChildrenMixin):
     def seed(self, rng_seed: Any) -> None:
         """Seeds RNG for this emitter and all children."""
         self._emitters.do_method('seed', rng_seed)
-        try:
-            super().seed(rng_seed)
-        except AttributeError:
-            pass
+        super().seed(rng_seed)
-- 
2.43.0


From f67f0319f89ecb327fbcedb272e5dceb44652d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 26/30] fix: use optional emitters that are false in a boolean
 context

Emitters passed as sep_emitter, repeat, or gate were silently replaced with
the default if their truth value is False (e.g. if they define __len__).
---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 5a18b64..6d254fc 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -190,7 +190,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index e93eb5f..a9ea4ff 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0


From 6cac3f1630fdaa250b22edda5e02b652c88a918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 27/30] fix: find and compare datetimes of other time zones in
 ranges

Steps of a range count local time, but finding a value in another time
zone used elapsed time, and comparing ranges in two zones did not account
for UTC offset changes.
---
 src/fauxdoc/dtrange.py | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index f25b133..9f66f5d 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -1,5 +1,5 @@
 """Contains an implementation of a custom date/time range type."""
-from datetime import date, datetime, time, timedelta
+from datetime import date, datetime, time, timedelta, timezone
 from typing import (
     Iterator, Optional, overload, Sequence, Tuple, TypeVar, Union
 )
@@ -50,6 +50,14 @@ def _value_to_index(value: DT, start: DT,
     else:
         valdt = value
         startdt = start
+        if isinstance(start, datetime) and None not in (start.utcoffset(),
+                                                        value.utcoffset()):
+            # Steps count local time, and UTC offsets can change during
+            # a range, so we need the value in the range's time zone.
+            try:
+                valdt = value.astimezone(start.tzinfo)
+            except OverflowError:
+                pass
     return divmod(valdt - startdt, step)
 
 
@@ -235,15 +243,32 @@ class DateOrTimeRange(Sequence[DT]):
             return True
         if my_len == 1:
             return self.start == other.start
-        return (self.start, self._wrapped_step) == (
-            other.start, other._wrapped_step
-        )
+        if self.start != other.start:
+            return False
+        if self._is_step_comparable(other):
+            return self._wrapped_step == other._wrapped_step
+        return all(mine == theirs for mine, theirs in zip(self, other))
+
+    def _is_step_comparable(self, other: 'DateOrTimeRange[DT]') -> bool:
+        """Returns True if ranges that start equal go by their steps."""
+        my_tz = getattr(self.start, 'tzinfo', None)
+        other_tz = getattr(other.start, 'tzinfo', None)
+        if my_tz is other_tz:
+            return True
+        if isinstance(self.start, time):
+            # Different zones reach midnight at different times.
+            return bool(self.start.utcoffset() == other.start.utcoffset())
+        # Zones other than `timezone` can change their UTC offset.
+        return isinstance(my_tz, timezone) and isinstance(other_tz, timezone)
 
     def __hash__(self) -> int:
         """Returns a hash number for an instance of this type."""
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self._wrapped_step if my_len > 1 else None
+        if getattr(self.start, 'tzinfo', None) is not None:
+            # Ranges in two zones can be equal while their steps differ.
+            step = None
         return hash((type(self), my_len, start, step))
 
     def _find(self, value: object) -> Iterator[int]:
@@ -263,7 +288,8 @@ class DateOrTimeRange(Sequence[DT]):
         # range lasts for more than a day: check each day.
         day = timedelta(days=1 if self._step > timedelta(0) else -1)
         while index < len(self):
-            if not rem and index >= 0:
+            # (Values in different time zones may still be different.)
+            if not rem and index >= 0 and self[index] == value:
                 yield index
             if not isinstance(self._start, time):
                 break
-- 
2.43.0


From aec8f4a4a65a4ee84e6862e096b23bdd61796bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 28/30] fix: wrap callables that have an attribute named
 function

---
 src/fauxdoc/emitters/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..c3a3b11 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -70,7 +70,7 @@ class BoundWrapper(Generic[SourceT, OutputT]):
             function: See 'function' attribute.
             bound_to: See 'bound_to' attribute.
         """
-        if hasattr(function, 'function'):
+        if isinstance(function, BoundWrapper):
             # Account for trying to create a new BoundWrapper instance
             # using an existing BoundWrapper instance as the `function`
             # argument. In this case we'd want to rebind the unbound
-- 
2.43.0


From 9d980b194d69f1f382b6256d9a185469370c32a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 29/30] fix: broadcast over groups that change meanwhile

---
 src/fauxdoc/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index f6e50ad..6e23fc4 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -121,7 +121,7 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-        return self
+        return list(self)
 
 
 class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
-- 
2.43.0


From 45a69cac9aa597f948e9c1d556572801b4bb5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 30/30] fix: wrap functions that take a value named self

A source emitter labeled 'self' (or a field with that name) collided with
BoundWrapper's own parameter, and was refused with a TypeError.
---
 src/fauxdoc/emitters/wrappers.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index c3a3b11..161d236 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -116,12 +116,15 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         """The 'wants_rng' attribute."""
         return self._wants_rng
 
-    def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
+    def __call__(*args: Any, **kwargs: Any) -> OutputT:
+        # There is no named parameter because `kwargs` may have any key,
+        # including 'self'. (Positional-only params need Python 3.8.)
+        self, *fn_args = args
         if self._wants_rng:
-            return self._function(*args, rng=self.bound_to.rng, **kwargs)
-        return self._function(*args, **kwargs)
+            return self._function(*fn_args, rng=self.bound_to.rng, **kwargs)
+        return self._function(*fn_args, **kwargs)
 
-    def try_mock_call(self, *args: Any, **kwargs: Any) -> None:
+    def try_mock_call(*args: Any, **kwargs: Any) -> None:
         """Tests the wrapped function signature by trying a mock call.
 
         Use this to check the user-provided function and raise a useful
@@ -138,15 +141,16 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         Raises:
             TypeError: If the mock call fails.
         """
+        self, *fn_args = args
         if self._wants_rng:
             kwargs['rng'] = self.bound_to.rng
         try:
             if self._signature is None:
-                self._function(*args, **kwargs)
+                self._function(*fn_args, **kwargs)
             else:
-                self._signature.bind(*args, **kwargs)
+                self._signature.bind(*fn_args, **kwargs)
         except TypeError as e:
-            call_str = str(call(*args, **kwargs))[4:]
+            call_str = str(call(*fn_args, **kwargs))[4:]
             raise TypeError(
                 f'The callback provided to {type(self.bound_to).__name__} '
                 f'does not appear to have the correct signature. Attempting a '
-- 
2.43.0

