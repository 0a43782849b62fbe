From 602a20c72a71b9d5f857e33ad7d00af83f941a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:11 +0000
Subject: [PATCH 1/7] fix: Curve.__eq__ compared nothing (returned a non-empty
 tuple)

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From e96d3ea4d75bb158672ab7f82b4ce8ac18499e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:11 +0000
Subject: [PATCH 2/7] fix: zero power of a base map recursed forever

---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From 06a513ec40f561ef889fa80d6c1d93e3ffd89d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:11 +0000
Subject: [PATCH 3/7] fix: junctions are derived in FIFO order, so that their
 depth is minimal

---
 peano/curves.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..a6b733f 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -8,7 +8,7 @@ determine entrance/exit points.
 """
 
 from __future__ import annotations
-from collections import namedtuple, defaultdict
+from collections import namedtuple, defaultdict, deque
 from dataclasses import dataclass
 import itertools
 from typing import Iterable, Sequence, Self, Any
@@ -412,7 +412,7 @@ class FuzzyCurve:
         # Yield base junctions and their derivatives
         # provide correct derivation order (in-width) to get correct depth in Curve.gen_regular_junctions
         seen = set()
-        to_derive = []
+        to_derive: deque[RegularJunction] = deque()
         for junc in base_juncs:
             yield junc
             seen.add(junc)
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.popleft()
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From 2fd3345ef38de49722813fb77a751b5c03df8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:11 +0000
Subject: [PATCH 4/7] fix: search crashed instead of reporting NOT FOUND

---
 search.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/search.py b/search.py
index b002e46..bb0584d 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,15 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
 
         print('======')
         print('GENERATOR:', gen_id)
-        if not result:
+        if result is None:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From 50526f18c48d8d3c2fc87a8b60337dcb38d8be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:20 +0000
Subject: [PATCH 5/7] fix: Spec.parse took only one digit of the pattern number

str(Spec) writes the whole number, so specs with pnum >= 10 could not be read
back; a spec with a number was also rejected after a space ('0ij, 1ij'),
where one without a number was accepted.
---
 peano/base_maps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 0e5326a..d94afce 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -311,12 +311,9 @@ class Spec:
     @classmethod
     def parse(cls, text: str) -> Spec:
         """Parse spec, e.g. 3ijk for pnum=3 and bm=ijk."""
-        if text[0].isdigit():
-            pnum = int(text[0])
-            basis = text[1:]
-        else:
-            pnum = 0
-            basis = text
+        basis = text.strip().lstrip('0123456789')
+        digits = text.strip().removesuffix(basis)
+        pnum = int(digits) if digits else 0
         return cls(base_map=BaseMap.parse(basis), pnum=pnum)
 
     def __str__(self) -> str:
-- 
2.43.0


From 6de97cfb055d4a8ad8d77332fc6e04d5ae8418fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:20 +0000
Subject: [PATCH 6/7] fix: init_from_paths exhausted an iterator of base maps

base_maps_group is documented as an Iterable, but it is traversed many times.
---
 peano/curves.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index a6b733f..256c756 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -712,7 +712,8 @@ class PathFuzzyCurve(FuzzyCurve):
         div = paths[0].div
 
         if base_maps_group is None:
-            base_maps_group = list(BaseMap.gen_base_maps(dim))
+            base_maps_group = BaseMap.gen_base_maps(dim)
+        base_maps_group = list(base_maps_group)  # used many times
         if disable_time_rev:
             base_maps_group = [bm for bm in base_maps_group if not bm.time_rev]
 
-- 
2.43.0


From cd6e09e903dae4f7f9af0e89857477bbdef432b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:04 +0000
Subject: [PATCH 7/7] fix: cached bounds reported the junction of another curve

---
 peano/dilation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peano/dilation.py b/peano/dilation.py
index 9e9a676..25e2200 100644
--- a/peano/dilation.py
+++ b/peano/dilation.py
@@ -201,7 +201,11 @@ class Estimator:
         else:
             pts1 = pts2 = ()
 
-        return self._get_pos_bounds(pair.junc, pos1, pos2, pts1, pts2)
+        lo, up, argmax = self._get_pos_bounds(pair.junc, pos1, pos2, pts1, pts2)
+        if argmax is not None:
+            # cached junction is equal to pair.junc, but its depth may come from another curve
+            argmax = {**argmax, 'junc': pair.junc}
+        return lo, up, argmax
 
     def _get_pos_bounds(
             self,
-- 
2.43.0

