From c45aabb5031f644770031d59e5ebe0c999bc8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 1/6] fix: Curve equality compared nothing (returned a
 non-empty tuple, always truthy)

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 15af449..4a41feb 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -529,7 +529,7 @@ class Curve(FuzzyCurve):
     """
 
     def __eq__(self, other):
-        return self.patterns, self.pnum == other.patterns, other.pnum
+        return (self.patterns, self.pnum) == (other.patterns, other.pnum)
 
     def __hash__(self):
         return hash((self.patterns, self.pnum))
-- 
2.43.0


From 939a06b2d984005c7e82a45d4113c829fefd7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 2/6] fix: zero power of a base map recursed forever, return
 the identity

---
 peano/base_maps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peano/base_maps.py b/peano/base_maps.py
index 2351e96..0e5326a 100644
--- a/peano/base_maps.py
+++ b/peano/base_maps.py
@@ -154,6 +154,8 @@ class BaseMap:
     def __pow__(self, power: int) -> BaseMap:
         if power < 0:
             return self.get_inverse()**(-power)
+        elif power == 0:
+            return BaseMap.id_map(self.dim)
         elif power == 1:
             return self
         elif power % 2 == 0:
-- 
2.43.0


From e1c85a8121139ce0a46031f46bb67eb99aea861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:36 +0000
Subject: [PATCH 3/6] fix: derive junctions in fifo order so that reported
 junction depths are minimal

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 4a41feb..554d407 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -420,7 +420,7 @@ class FuzzyCurve:
 
         while to_derive:
             # to_derive is a queue (fifo), this guarantees that depths are correct
-            junc = to_derive.pop()
+            junc = to_derive.pop(0)
             dj = self._get_derived_junction(junc)
             if dj not in seen:
                 yield dj
-- 
2.43.0


From a3ea2944af0333d357968ac21b6584e1ec1a7cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:04 +0000
Subject: [PATCH 4/6] fix: report NOT FOUND in search when the upper bound is
 violated instead of crashing

---
 search.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/search.py b/search.py
index b002e46..bb0584d 100755
--- a/search.py
+++ b/search.py
@@ -76,15 +76,15 @@ def run_search(
             upper_bound=upper_bound,
             **estimate_kwargs
         )
-        result.update(estimator.get_info())
-        result['gates_count'] = len(gate_list)
-        curves = result.pop('curves')
 
         print('======')
         print('GENERATOR:', gen_id)
-        if not result:
+        if result is None:
             print('NOT FOUND!')
         else:
+            result.update(estimator.get_info())
+            result['gates_count'] = len(gate_list)
+            curves = result.pop('curves')
             pprint.pprint(result)
             print('lower bound (float):', float(result['lo']))
             print('upper bound (float):', float(result['up']))
-- 
2.43.0


From df2ccd8335c6cd0b06061681f10203c4236b0524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 5/6] fix: keep the selected pattern of the fuzzy curve in the
 curve decoded from a SAT model

---
 peano/_sat_adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/_sat_adapters.py b/peano/_sat_adapters.py
index d7712f0..fb1481a 100644
--- a/peano/_sat_adapters.py
+++ b/peano/_sat_adapters.py
@@ -214,4 +214,4 @@ class CurveSATAdapter:
         for pnum, pattern in enumerate(curve.patterns):
             specs = specs_allowed_by_model[pnum * G : (pnum + 1) * G]
             patterns.append((pattern.proto, specs))
-        return Curve(dim=curve.dim, div=curve.div, patterns=patterns)
+        return Curve(dim=curve.dim, div=curve.div, patterns=patterns, pnum=curve.pnum)
-- 
2.43.0


From 3801ffe25b737a5db80414121164eb1d009ccf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 6/6] fix: keep the selected pattern when a curve is converted
 to a fuzzy curve

---
 peano/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peano/curves.py b/peano/curves.py
index 554d407..cba3cef 100644
--- a/peano/curves.py
+++ b/peano/curves.py
@@ -564,7 +564,7 @@ class Curve(FuzzyCurve):
 
     def forget(self, **kwargs) -> PathFuzzyCurve:
         """Convert curve to a fuzzy curve, saving entrance/exit and forgetting all specs."""
-        return PathFuzzyCurve.init_from_paths(self.get_paths(), **kwargs)
+        return PathFuzzyCurve.init_from_paths(self.get_paths(), **kwargs)._changed(pnum=self.pnum)
 
     def get_subdivision(self, k: int = 1) -> Curve:
         """Get k-th subdivision of a curve."""
-- 
2.43.0

