From ade07085da4153dc70c9e5a0918746c33738ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:45 +0000
Subject: [PATCH 01/32] fix: poisson raises OverflowError for large x or mu

---
 src/fauxdoc/mathtools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..473d68b 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -19,7 +19,14 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # One of the terms is too large for a float even though the
+        # result is not, so calculate using logarithms instead.
+        if mu == 0:
+            return 0.0
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From 561e684e4264b6fd4e1a4663f5c063b001b01849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:48 +0000
Subject: [PATCH 02/32] fix: weighted_shuffle fails when weights contain zeros

---
 src/fauxdoc/mathtools.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 473d68b..e3bfbc6 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -136,7 +136,12 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # Items with a weight of 0 always score lowest.
+        scores = zip(
+            (math.log(r) / w if w else -math.inf
+             for r, w in ((rng.random(), w) for w in weights)),
+            items
+        )
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -156,7 +161,8 @@ def weighted_shuffle(items: Sequence[T],
         )
 
     # The k threshold where the `high_k` method becomes faster than the
-    # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # `low_k` is k =~ 42% of the total number of items. The `low_k`
+    # method can only select items that have a non-zero weight.
+    if number <= nitems * 0.42 and number <= sum(1 for w in weights if w):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From a602c877728e390a4abebc88c3df4c3d316987db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 03/32] fix: Text drops texts that have zero words

---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..62f884d 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,11 +287,13 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_texts_with_words = sum(1 for length in lengths if length)
+        seps = iter(self._emitters['sep'](total_words - total_texts_with_words))
         for length in lengths:
+            render = []
             if length:
-                render = [next(words)]
+                render.append(next(words))
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From 1111293bd12b71edd48de42fe87328076207b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 04/32] fix: Word and Text num_unique_values wrong for repeated
 or zero lengths

---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 62f884d..7e0f3aa 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -111,7 +111,8 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
             poss_items = self._emitters['length'].items
-            self._num_unique_values = sum([nchars ** i for i in poss_items])
+            self._num_unique_values = sum([nchars ** i
+                                           for i in set(poss_items)])
 
     def reset(self) -> None:
         """See superclass."""
@@ -217,9 +218,10 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         sep_em_has_uv = self._emitters['sep'].num_unique_values is not None
         if word_em_has_uv and sep_em_has_uv and hasattr(numwords, 'items'):
             nums: List[int] = []
-            for length in numwords.items:
+            for length in set(numwords.items):
+                n_seps = max(length - 1, 0)
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_us = self._emitters['sep'].num_unique_values ** n_seps
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
-- 
2.43.0


From f4e30dbf40597c8b9cc5e26aedddbb8d46bf532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 05/32] fix: dtrange has a negative length if stop is on the
 wrong side of start

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..85cc905 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -354,4 +354,4 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 8f3feea72b48278af8ea52c7bee8187c89b7076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 06/32] fix: 24-hour time dtrange does not work with a negative
 step

---
 src/fauxdoc/dtrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 85cc905..28fb486 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,7 +349,8 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        day = timedelta(days=1 if step_td > timedelta(0) else -1)
+        stop_refdate = start_refdate + day
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-- 
2.43.0


From d12167b009cc25dd2f703a216866e48841abcd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:28 +0000
Subject: [PATCH 07/32] fix: valid slices of a DateOrTimeRange raise errors

---
 src/fauxdoc/dtrange.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 28fb486..c6fb381 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,8 +179,14 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
-            start = _index_to_value(slc.start, self.start, self.step)
-            return type(self)(start, len(slc), self.step * slc.step)
+            # Slices with no values or one value don't really need the
+            # sliced start and/or step, which might not be valid.
+            start, step = self.start, self.step
+            if len(slc) > 0:
+                start = _index_to_value(slc.start, start, self.step)
+            if len(slc) > 1:
+                step = self.step * slc.step
+            return type(self)(start, len(slc), step)
         try:
             index_num = self._index_range[index]
         except IndexError:
-- 
2.43.0


From 98db90f7190e7d6b114fc922182a53ba1e468238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 08/32] fix: DateOrTimeRange lengths castable to int raise a
 TypeError

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index c6fb381..a655333 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -94,7 +94,7 @@ class DateOrTimeRange(Sequence[DT]):
         self.length = length
         self.start = start
         self.step = step
-        self._index_range = range(0, length)
+        self._index_range = range(0, self._length)
 
     @property
     def start(self) -> DT:
-- 
2.43.0


From db0113d8a0252c1a73fe1f1d754bd0d5aceaceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 09/32] fix: values in timezone-aware time ranges lose their
 timezone

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index a655333..2c885fe 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From a62a2b55f540c313da88be8f7a0bd86344c8ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 10/32] fix: looking for incomparable values in a
 DateOrTimeRange raises TypeError

---
 src/fauxdoc/dtrange.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 2c885fe..0386e6a 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -246,9 +246,15 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
-            if not rem and index in self._index_range[start:stop]:
-                return index
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # `value` isn't comparable with values in this range,
+                # e.g. a datetime compared with a range of dates.
+                pass
+            else:
+                if not rem and index in self._index_range[start:stop]:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
-- 
2.43.0


From a96d794d6de187ab7dc31769af5d6507629c262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 11/32] fix: slicing, adding, multiplying, or copying an
 ObjectGroup nests it

---
 src/fauxdoc/group.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..6792df9 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -78,6 +78,33 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """
         super().__init__(objects)
 
+    def _make_group(self, objects: Iterable[T]) -> 'ObjectGroup[T]':
+        """Makes a new group of this type containing other objects."""
+        # UserList methods assume they can pass one list to __init__ to
+        # create a new instance, but __init__ takes a star argument.
+        new_group = self.__copy__()
+        new_group.data = list(objects)
+        return new_group
+
+    def __getitem__(self, i: Any) -> Any:
+        if isinstance(i, slice):
+            return self._make_group(self.data[i])
+        return self.data[i]
+
+    def __add__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._make_group([*self.data, *other])
+
+    def __radd__(self, other: Iterable[T]) -> 'ObjectGroup[T]':
+        return self._make_group([*other, *self.data])
+
+    def __mul__(self, n: int) -> 'ObjectGroup[T]':
+        return self._make_group(self.data * n)
+
+    __rmul__ = __mul__
+
+    def copy(self) -> 'ObjectGroup[T]':
+        return self._make_group(self.data)
+
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-- 
2.43.0


From e8ad5db4be43140e9d06bd32c3d6b261d2c998d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 12/32] fix: fromkeys, copying, and pickling do not work for
 ObjectMap

---
 src/fauxdoc/group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 6792df9..c0b26fb 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,5 +1,6 @@
 """Contains classes for grouping and operating on groups of objects."""
 from abc import ABC, abstractmethod
+from types import MappingProxyType
 from typing import Any, Generic, Iterable, Mapping
 
 from fauxdoc.typing import OrderedDict, T, UserList
@@ -123,12 +124,13 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Mapping[str, T] = MappingProxyType({})
+                 ) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-            objects: Your initial dict that maps keys to objects in
-                this group.
+            objects: (Optional.) Your initial dict that maps keys to
+                objects in this group. Defaults to an empty dict.
         """
         super().__init__(objects)
 
-- 
2.43.0


From 0020d24c3ae6b0eab887db1fda2aaa30d79fb741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 13/32] fix: do_method hides AttributeErrors raised inside
 existing methods

---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index c0b26fb..8f8e2a8 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -52,9 +52,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From 5a32f2fbf0eaa665a604a48879778ea732301678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 14/32] fix: num_unique_values raises TypeError for unhashable
 items

---
 src/fauxdoc/emitters/choice.py |  2 +-
 src/fauxdoc/mixins.py          | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..d366cfc 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -290,7 +290,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return self._count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..903be54 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -1,6 +1,6 @@
 """Contains mixin classes."""
 import random
-from typing import Any, Generic, Sequence
+from typing import Any, Generic, List, Sequence
 
 from fauxdoc.group import ObjectMap
 from fauxdoc.typing import EmitterLike, T
@@ -92,7 +92,20 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return self._count_unique(self._items)
+
+    @staticmethod
+    def _count_unique(values: Sequence[T]) -> int:
+        """Returns the number of unique values in the given sequence."""
+        try:
+            return len(set(values))
+        except TypeError:
+            # Some values are not hashable.
+            unique: List[T] = []
+            for value in values:
+                if value not in unique:
+                    unique.append(value)
+            return len(unique)
 
 
 class ChildrenMixin:
-- 
2.43.0


From bc49acdebeb5419f49776e0a6f08fd2fe12a1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 15/32] fix: Choice accepts empty weights instead of raising a
 ValueError

---
 src/fauxdoc/emitters/choice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index d366cfc..db32bbb 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -111,7 +111,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
                 f"The 'items' argument must be a non-empty sequence. "
                 f"(Provided: {items})"
             )
-        if weights and cum_weights:
+        if weights is not None and cum_weights is not None:
             raise TypeError(
                 "Only one of 'weights' or 'cum_weights' (cumulative weights) "
                 "may be supplied -- not both."
@@ -121,8 +121,8 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         self._replace = replace or replace_only_after_call
         self._replace_only_after_call = replace_only_after_call
         self.noun = noun
-        weights_to_set = weights or cum_weights
-        weights_are_cumulative = bool(cum_weights)
+        weights_to_set = cum_weights if weights is None else weights
+        weights_are_cumulative = cum_weights is not None
         self._set_all_weights(weights_to_set, weights_are_cumulative, items)
         super().__init__(items=items, rng_seed=rng_seed)
 
-- 
2.43.0


From 6a08fb9958f05056c0b5f7c14c8b45d6a37a5fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 16/32] fix: Field.multi_valued is True for some repeat
 emitters that only emit None

---
 src/fauxdoc/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..e93eb5f 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,7 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            return any(i is not None for i in self.repeat_emitter.items)
         return True
 
     @property
-- 
2.43.0


From a770e528ee85e9b42471cafc9ab43a72f7f99f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 17/32] fix: BasedOnFields consumes source field values when
 action is set

---
 src/fauxdoc/emitters/fromfields.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..e778ddd 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -251,19 +251,28 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
             action: See the 'action' attribute.
         """
         self._action = action
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
-        except TypeError:
-            raise
+            # Calling a source field consumes a value, so that's a last
+            # resort, used to find or show what is wrong.
+            self._try_action([field.previous for field in self.source])
+        except Exception:
+            self._try_action([field() for field in self.source])
         finally:
             self.reset()
 
+    def _try_action(self, values: Sequence[FieldReturn[SourceT]]) -> None:
+        """Tries a mock call to the action using the given values.
+
+        Args:
+            values: A sequence of values, one for each source field.
+        """
+        if len(self.source) == 1:
+            self._action.try_mock_call(values[0])
+        else:
+            self._action.try_mock_call(**{
+                field.name: val for field, val in zip(self.source, values)
+            })
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0


From 31536267d06aae7afe47699c7ba83ee7d99f4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 18/32] fix: gaussian raises OverflowError for values far from
 mu

---
 src/fauxdoc/mathtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index e3bfbc6..5854186 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -44,7 +44,8 @@ def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
         A float value representing the relative probability that a
         random variable would be approximately x.
     """
-    term1 = math.exp(-1 * (((x - mu) / sigma) ** 2) / 2)
+    deviation = (x - mu) / sigma
+    term1 = math.exp(-1 * (deviation * deviation) / 2)
     term2 = 1 / (math.sqrt(2 * math.pi) * sigma)
     return term1 * term2
 
-- 
2.43.0


From 9ecd7176b82dd776cb540f343327ba28f11389a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 19/32] fix: date ranges accept some very large steps that are
 not whole days

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 0386e6a..2af2861 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -136,7 +136,7 @@ class DateOrTimeRange(Sequence[DT]):
             )
         start_is_date_only = not hasattr(self.start, 'second')
         start_is_time_only = not hasattr(self.start, 'day')
-        if start_is_date_only and step_val.total_seconds() % 86400:
+        if start_is_date_only and step_val % timedelta(days=1):
             raise ValueError(
                 "The 'step' amount is invalid for a date range lacking a time "
                 "component. It must be some number of whole days, e.g. "
-- 
2.43.0


From 3f0df0c54674a6fc50fb9ddf5535ef92bebca7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:31 +0000
Subject: [PATCH 20/32] fix: Field and Text replace emitters that are falsy
 with their defaults

---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 7e0f3aa..a87e0f3 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -191,7 +191,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index e93eb5f..a9ea4ff 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0


From 54c59238883ca9e677ec84db0e7c8f2098660b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 21/32] fix: Word and Text num_unique_values go stale when
 their parts change

---
 src/fauxdoc/emitters/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index a87e0f3..a8ca78f 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -128,6 +128,8 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can emit."""
+        # The child emitters may have changed since this was last set.
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def emit(self) -> str:
@@ -228,6 +230,8 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
     @property
     def num_unique_values(self) -> Optional[int]:
         """Returns the max number of unique values this can produce."""
+        # The child emitters may have changed since this was last set.
+        self._update_num_unique_vals()
         return self._num_unique_values
 
     def reset(self) -> None:
-- 
2.43.0


From 10c72412c18728c8de1a560230af4b79465f7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:15 +0000
Subject: [PATCH 22/32] fix: weighted_shuffle puts items of zero weight before
 items of extremely low weight

---
 src/fauxdoc/mathtools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 5854186..a47b061 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -1,6 +1,7 @@
 """Contains math utility functions used in the data module."""
 import math
 import random
+import sys
 from typing import List, Optional, Sequence
 
 from fauxdoc.typing import F, T
@@ -137,9 +138,11 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        # Items with a weight of 0 always score lowest.
+        # Items with a weight of 0 always score lowest. (The score of an
+        # extremely low weight may be -infinity, too.)
+        lowest = -sys.float_info.max
         scores = zip(
-            (math.log(r) / w if w else -math.inf
+            (max(math.log(r) / w, lowest) if w else -math.inf
              for r, w in ((rng.random(), w) for w in weights)),
             items
         )
-- 
2.43.0


From 20c5b090f7db63c27353f34663d2488165425dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:05 +0000
Subject: [PATCH 23/32] fix: datetime ranges in zones with changing offsets
 miscount values of other zones

---
 src/fauxdoc/dtrange.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 2af2861..51f955a 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -48,6 +48,17 @@ def _value_to_index(value: DT, start: DT,
     else:
         valdt = value
         startdt = start
+        if (isinstance(start, datetime) and isinstance(value, datetime)
+                and value.tzinfo is not start.tzinfo
+                and value.utcoffset() is not None
+                and start.utcoffset() is not None):
+            # Range values are calculated using the local time of the
+            # start value, and the UTC offset there may change.
+            try:
+                valdt = value.astimezone(start.tzinfo)
+            except OverflowError:
+                # `value` is not within the years 1 to 9999 there.
+                pass
     return divmod(valdt - startdt, step)
 
 
@@ -253,7 +264,8 @@ class DateOrTimeRange(Sequence[DT]):
                 # e.g. a datetime compared with a range of dates.
                 pass
             else:
-                if not rem and index in self._index_range[start:stop]:
+                if (not rem and index in self._index_range[start:stop]
+                        and self[index] == value):
                     return index
         raise ValueError(f'{value} is not in range')
 
-- 
2.43.0


From 25891cecb8e6bc984e1143211239deaf0dc37cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 24/32] fix: dtrange and DateOrTimeRange fail with
 ZeroDivisionError for zero steps

---
 src/fauxdoc/dtrange.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 51f955a..797e2ec 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -145,6 +145,8 @@ class DateOrTimeRange(Sequence[DT]):
             raise ValueError(
                 "Attribute 'step' must be an instance of datetime.timedelta."
             )
+        if not step_val:
+            raise ValueError("Attribute 'step' must not be zero.")
         start_is_date_only = not hasattr(self.start, 'second')
         start_is_time_only = not hasattr(self.start, 'day')
         if start_is_date_only and step_val % timedelta(days=1):
@@ -366,6 +368,8 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
             "Invalid 'step_unit' argument. It must be a valid kwarg for "
             "timedelta: weeks, days, hours, minutes, seconds, or microseconds."
         )
+    if not step_td:
+        raise ValueError("The 'step' argument must not be zero.")
 
     if isinstance(start_obj, time) and start_obj == stop_obj:
         # This is kind of hacky but the simplest way I could think of
-- 
2.43.0


From c2548cb56e76f6c3856ce5208a830339b38986e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 25/32] fix: time ranges may be empty or longer than a day if
 start and stop are in different time zones

---
 src/fauxdoc/dtrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 797e2ec..1ccf9aa 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -45,6 +45,9 @@ def _value_to_index(value: DT, start: DT,
             valdate = startdate
         valdt = datetime.combine(valdate, value)
         startdt = datetime.combine(startdate, start)
+        # Times in different time zones may be more than a day apart.
+        day = timedelta(days=1 if step_secs > 0 else -1)
+        valdt = startdt + (valdt - startdt) % day
     else:
         valdt = value
         startdt = start
-- 
2.43.0


From ef8c5ebaa0302f649d85747784f4e949baa7c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 26/32] fix: take only BoundWrapper instances for wrapped
 functions

Any callable object with a 'function' attribute of its own was replaced
by that attribute when used as a wrapper or action.
---
 src/fauxdoc/emitters/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..c3a3b11 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -70,7 +70,7 @@ class BoundWrapper(Generic[SourceT, OutputT]):
             function: See 'function' attribute.
             bound_to: See 'bound_to' attribute.
         """
-        if hasattr(function, 'function'):
+        if isinstance(function, BoundWrapper):
             # Account for trying to create a new BoundWrapper instance
             # using an existing BoundWrapper instance as the `function`
             # argument. In this case we'd want to rebind the unbound
-- 
2.43.0


From 62013db285d0bc03c89a88bf60c48a8e2a80989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:35 +0000
Subject: [PATCH 27/32] fix: accept 'self' as name of a WrapMany source or
 BasedOnFields source field

---
 src/fauxdoc/emitters/wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index c3a3b11..cabbce4 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -116,12 +116,14 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         """The 'wants_rng' attribute."""
         return self._wants_rng
 
-    def __call__(self, *args: SourceT, **kwargs: SourceT) -> OutputT:
+    def __call__(*args: Any, **kwargs: SourceT) -> OutputT:
+        # 'self' comes from args, so that kwargs may contain that name.
+        self, args = args[0], args[1:]
         if self._wants_rng:
             return self._function(*args, rng=self.bound_to.rng, **kwargs)
         return self._function(*args, **kwargs)
 
-    def try_mock_call(self, *args: Any, **kwargs: Any) -> None:
+    def try_mock_call(*args: Any, **kwargs: Any) -> None:
         """Tests the wrapped function signature by trying a mock call.
 
         Use this to check the user-provided function and raise a useful
@@ -138,6 +140,8 @@ class BoundWrapper(Generic[SourceT, OutputT]):
         Raises:
             TypeError: If the mock call fails.
         """
+        # 'self' comes from args, so that kwargs may contain that name.
+        self, args = args[0], args[1:]
         if self._wants_rng:
             kwargs['rng'] = self.bound_to.rng
         try:
-- 
2.43.0


From 9fe303e9cbcc4a73ba59f20c0d8b0f360dbb9b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 28/32] fix: poisson returned 0 where only its exponential term
 underflows

---
 src/fauxdoc/mathtools.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index a47b061..edfe070 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -21,13 +21,16 @@ def poisson(x: int, mu: float = 1) -> float:
         might occur.
     """
     try:
-        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+        exp_term = math.exp(-1 * mu)
+        if exp_term >= sys.float_info.min:
+            return (mu ** x) * exp_term / math.factorial(x)
     except OverflowError:
-        # One of the terms is too large for a float even though the
-        # result is not, so calculate using logarithms instead.
-        if mu == 0:
-            return 0.0
-        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
+        pass
+    # One of the terms is too large or too small for a float even though
+    # the result is not, so calculate using logarithms instead.
+    if mu == 0:
+        return 0.0
+    return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From a4f0e64e21cde0f6c99dd96a6fcc65c494d1adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 29/32] fix: setting a wrapper failed when its source had run
 out of values

---
 src/fauxdoc/emitters/wrappers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index cabbce4..55e7f9b 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -284,6 +284,9 @@ class WrapOne(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         Args:
             wrapper: See the 'wrapper' attribute.
         """
+        # The source may have run out of values, so start it over before
+        # taking one.
+        self.reset()
         try:
             wrapper.try_mock_call(self._emitters['source']())
         except TypeError:
@@ -390,6 +393,9 @@ class WrapMany(Generic[SourceT, OutputT], RandomWithChildrenMixin,
         Args:
             wrapper: See the 'wrapper' attribute.
         """
+        # The sources may have run out of values, so start them over before
+        # taking any.
+        self.reset()
         kwargs = {k: v() for k, v in self._emitters.items()}
         try:
             wrapper.try_mock_call(**kwargs)
-- 
2.43.0


From a4c381dfd0ae49876d09b52861968747eecb8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 30/32] fix: weighted_shuffle fails when the generator gives
 0.0

---
 src/fauxdoc/mathtools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index edfe070..c8c18bc 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -144,9 +144,12 @@ def weighted_shuffle(items: Sequence[T],
         # Items with a weight of 0 always score lowest. (The score of an
         # extremely low weight may be -infinity, too.)
         lowest = -sys.float_info.max
+        # There is no logarithm of 0.0, which `random` may give. The next
+        # number it may give is 2 ** -53.
+        no_less = 2 ** -54
         scores = zip(
             (max(math.log(r) / w, lowest) if w else -math.inf
-             for r, w in ((rng.random(), w) for w in weights)),
+             for r, w in ((rng.random() or no_less, w) for w in weights)),
             items
         )
 
-- 
2.43.0


From 770b103dd48c6768587a2a3e3c993166d842736e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 31/32] fix: equal ranges of subclasses have different hashes

---
 src/fauxdoc/dtrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 1ccf9aa..0db8a88 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -229,7 +229,7 @@ class DateOrTimeRange(Sequence[DT]):
 
     def __eq__(self, other: object) -> bool:
         """Returns True if this range is equal to a comparison range."""
-        if not isinstance(other, type(self)):
+        if not isinstance(other, DateOrTimeRange):
             return NotImplemented
         my_len = len(self)
         other_len = len(other)
@@ -246,7 +246,7 @@ class DateOrTimeRange(Sequence[DT]):
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self.step if my_len > 1 else None
-        return hash((type(self), my_len, start, step))
+        return hash((DateOrTimeRange, my_len, start, step))
 
     def index(self,
               value: DT,
-- 
2.43.0


From 92c29645a0e9eef991cb07d0260925483a53c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 32/32] fix: ranges that start with a date/time subclass do not
 find equal values

---
 src/fauxdoc/dtrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 0db8a88..10093f5 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -261,7 +261,7 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
+        if isinstance(value, (date, time)):
             try:
                 index, rem = _value_to_index(value, self._start, self._step)
             except TypeError:
@@ -276,7 +276,7 @@ class DateOrTimeRange(Sequence[DT]):
 
     def __contains__(self, value: object) -> bool:
         """Returns True if a value is in this range."""
-        if isinstance(value, type(self.start)):
+        if isinstance(value, (date, time)):
             try:
                 self.index(value)
             except ValueError:
-- 
2.43.0

