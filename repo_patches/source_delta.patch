From e6b0c9d75846716946fd089f412ba8839c328e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 01/75] fix: RealSet.simplify orders its pieces by their least
 element

Ordering by the upper bound puts {1} before (0,1), and merging the two
then yields the empty [1,1).
---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..b948029 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -478,7 +478,7 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
+        head, tail = first(chop(sorted(intervals, key=attrgetter('min'))))
         intervals = [head]
         for subset in tail:
             if intervals[-1].contiguous(subset):
-- 
2.43.0


From 25ffce4477baa8a104cf83286b072a84edd3c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 02/75] fix: RealSet.simplify and parsing no longer share
 intervals

simplify() (and with it ==, size(), union, ...) extended the intervals of
the set it was called on, and handed out the module's EMPTY constant.
---
 src/jpt/base/intervals.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index b948029..42fd172 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -468,7 +468,7 @@ cdef class RealSet(NumberSet):
         while tail:
             head, tail_ = first(chop(tail))
             if not head.isempty():
-                intervals.append(head)
+                intervals.append(head.copy())
             tail = []
             for subset in tail_:
                 diff = subset.difference(head)
@@ -477,7 +477,7 @@ cdef class RealSet(NumberSet):
                 else:
                     tail.extend(diff.intervals)
         if not intervals:
-            return EMPTY
+            return EMPTY.copy()
         head, tail = first(chop(sorted(intervals, key=attrgetter('min'))))
         intervals = [head]
         for subset in tail:
@@ -611,7 +611,7 @@ cdef class ContinuousSet(NumberSet):
         :return: The corresponding ContinuousSet
         """
         if s == _EMPTYSET:
-            return EMPTY
+            return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
         tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
 
-- 
2.43.0


From 2441e01969eede872188e9af71e566333b6dd72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 03/75] fix: an empty interval intersects nothing

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 42fd172..44de0fb 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -925,7 +925,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
-- 
2.43.0


From df3443d5f67e6f62b55490ae1618abfaf9f9c54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 04/75] fix: RealSet.to_json keeps all intervals

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 44de0fb..3c96a93 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From d486abd5de8cc0a22c204874ebad9cedfed5f7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 05/75] fix: RealSet.contains_interval considers contiguous
 constituents

[0,1] u [1,2] contains [0.5,1.5].
---
 src/jpt/base/intervals.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 3c96a93..6b35e6b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -315,6 +315,11 @@ cdef class RealSet(NumberSet):
         for s in self.intervals:
             if s.contains_interval(other):
                 return True
+        # an interval may also be covered by several contiguous or overlapping constituents
+        simplified = self.simplify()
+        for s in simplified.intervals if isinstance(simplified, RealSet) else [simplified]:
+            if s.contains_interval(other):
+                return True
         return False
 
     cpdef inline np.int32_t isninf(RealSet self):
-- 
2.43.0


From 171591bf84c65f8427ce73e97b14ad4b2cd692e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 06/75] fix: RealSet.sample skips empty constituents
 consistently

The weights left the empty intervals out, the selection by index did not.
---
 src/jpt/base/intervals.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 6b35e6b..e94ffe2 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -274,8 +274,8 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
-        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+        intervals = [i_ for i_ in self.intervals if i_.size()]
+        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower) for i_ in intervals], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -287,7 +287,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    intervals[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From 982757928fc7c427c10aa18285682fc0e3034be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 07/75] fix: RealSet.chop works on sets that simplify to a
 single interval

---
 src/jpt/base/intervals.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index e94ffe2..bb445d2 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -533,7 +533,8 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        simplified = self.simplify()
+        for i in simplified.intervals if isinstance(simplified, RealSet) else [simplified]:
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 53c1324ff29c87523fefad773514bce61ba8f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 08/75] fix: equal number sets have equal hashes

---
 src/jpt/base/intervals.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index bb445d2..7d28e6f 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,10 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1303,9 +1303,9 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
-        )
+        if self.isempty():
+            return hash((ContinuousSet, None))
+        return hash((ContinuousSet, self.min, self.max))
 
     def __getstate__(self):
         return self.lower, self.upper, self.left, self.right
-- 
2.43.0


From e84a4867b9e9bd8cba9916cf1e302b6b1bad3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 09/75] fix: nan is not an element of any interval

---
 src/jpt/base/intervals.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 7d28e6f..a893e5e 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -874,6 +874,8 @@ cdef class ContinuousSet(NumberSet):
         :param value: the value
         :return: True if the value is in this interval, else False
         """
+        if value != value:  # nan lies in no interval
+            return False
         return self.intersects(ContinuousSet(value, value))
 
     cpdef inline np.int32_t contains_interval(
-- 
2.43.0


From 1274f24ec304f77de740148be527eb7b7ef63495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 10/75] fix: empty constituents of a RealSet do not matter to
 its containment

---
 src/jpt/base/intervals.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index a893e5e..cd34a4e 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -310,7 +310,7 @@ cdef class RealSet(NumberSet):
         :return: bool
         """
         if isinstance(other, RealSet):
-            return all([self.contains_interval(i) for i in other.intervals])
+            return all([self.contains_interval(i) for i in other.intervals if not i.isempty()])
         cdef ContinuousSet s
         for s in self.intervals:
             if s.contains_interval(other):
@@ -896,7 +896,8 @@ cdef class ContinuousSet(NumberSet):
             return False
         if isinstance(other, RealSet):
             return all(
-                [self.contains_interval(i, proper_containment=proper_containment) for i in other.intervals]
+                [self.contains_interval(i, proper_containment=proper_containment)
+                 for i in other.intervals if not i.isempty()]
             )
         if self.lowermost() > other.lowermost() or self.uppermost() < other.uppermost():
             return False
-- 
2.43.0


From 06a38577e02fd472272b177dd94723d492bc4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 11/75] fix: the operators | and & of ContinuousSet accept any
 NumberSet

as their signatures say; with a RealSet they raised a TypeError.
---
 src/jpt/base/intervals.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index cd34a4e..3ba96af 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1249,9 +1249,13 @@ cdef class ContinuousSet(NumberSet):
         return not self == other
 
     def __or__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.union(self)
         return self.union(other)
 
     def __and__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.intersection(self)
         return self.intersection(other)
 
     def __sub__(self, other: NumberSet) -> NumberSet:
-- 
2.43.0


From b86751bd0a097ac531789ae86493036fc9fec17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 12/75] fix: CDFRegressor's backward pass considers the points
 right of the last split

---
 src/jpt/distributions/quantile/cdfreg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index b461e30..ce1dad4 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -155,7 +155,7 @@ cdef class CDFRegressor:
         self._points.pop()
 
         cdef:
-            SIZE_t pos = self._points.top(), start
+            SIZE_t pos = self.points.front(), start
             DTYPE_t lx, ly, rx, ry, m, c, err
             int keep_p
 
-- 
2.43.0


From 5dc9926116ed9d6b6e63ed441c4451af1cc147aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 13/75] fix: merging quantile distributions retains the jumps
 of their CDFs

---
 src/jpt/distributions/quantile/quantiles.pyx | 101 ++++---------------
 1 file changed, 20 insertions(+), 81 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..e85821c 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -462,87 +462,26 @@ cdef class QuantileDistribution:
                 'Detected NaN in weight vector!'
             )
 
-        # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
-        jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
-
-        # --------------------------------------------------------------------------------------------------------------
-
-        lower = sorted(
-            [
-                (i.lower, f, w)
-                for d, w in zip(distributions, weights)
-                    for i, f in zip(d.cdf.intervals, d.cdf.functions)
-                if not isinstance(f, ConstantFunction) and w > 0
-            ] + [
-                (j.knot, j, j.weight) for j in jumps.values() if j.weight > 0
-            ],
-            key=itemgetter(0)
-        )
-        upper = sorted(
-            [
-                (i.upper, f, w)
-                for d, w in zip(distributions, weights)
-                    for i, f in zip(d.cdf.intervals, d.cdf.functions)
-                if not isinstance(f, ConstantFunction) and w > 0
-            ],
-            key=itemgetter(0)
-        )
-
-        # --------------------------------------------------------------------------------------------------------------
-
-        m = 0
-        c = 0
-
-        while lower or upper:
-            pivot = None
-            m_ = m
-            offset = 0
-
-            # Process all function intervals whose lower bound is minimal and
-            # smaller than the smallest upper interval bound
-            while lower and (pivot is None and first(lower, first) <= first(upper, first, np.PINF) or
-                   pivot == first(lower, first, np.PINF)):
-                l, f, w = lower.pop(0)
-                if isinstance(f, ConstantFunction) or l == np.NINF or isinstance(f, LinearFunction) and f.m == 0:
-                    continue
-                if isinstance(f, Jump):  # and isinstance(functions[-1], LinearFunction):
-                    offset += w
-                if isinstance(f, LinearFunction):
-                    m_ += f.m * w
-                pivot = l
-
-            # Do the same for the upper bounds...
-            while upper and (pivot is None and first(upper, first) <= first(lower, first, np.PINF) or
-                   pivot == first(upper, first, np.PINF)):
-                u, f, w = upper.pop(0)
-                if isinstance(f, (ConstantFunction, Jump)) or u == np.PINF or isinstance(f, LinearFunction) and f.m == 0:
-                    continue
-                m_ -= f.m * w
-                pivot = u
-
-            if pivot is None:
-                continue
-
-            y = m * pivot + c
-            m = m_ if abs(m_) > 1e-8 else 0
-            c = y - m * pivot + offset
-
-            intervals[-1].upper = pivot
-            if (c or m) and (m != functions[-1].m or c != functions[-1].c):
-                # Split the last interval at the pivot point
-                intervals.append(ContinuousSet(pivot, np.PINF, INC, EXC))
-                # Evaluate the old function at the new pivot point to get the intercept
-                functions.append(LinearFunction(m, c) if abs(m) > 1e-8 else ConstantFunction(c))
-
-        # If the merging ends with an "approximate" constant function
-        # remove it. This may happen for numerical imprecision.
-        while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
-            del intervals[-1]
-            del functions[-1]
+        # The mixture CDF is the weighted sum of the CDFs on every interval between two neighboring knots
+        components = [(w, d.cdf) for w, d in zip(weights, distributions) if w > 0]
+        segments = [0] * len(components)
+        knots = sorted({
+            i.lower for _, cdf in components for i in cdf.intervals if i.lower != np.NINF
+        })
+
+        for knot in knots:
+            m = 0
+            c = 0
+            for idx, (w, cdf) in enumerate(components):
+                while segments[idx] + 1 < len(cdf) and cdf.intervals[segments[idx] + 1].lower <= knot:
+                    segments[idx] += 1
+                f = cdf.functions[segments[idx]]
+                m += w * f.m
+                c += w * f.c
+            if m != functions[-1].m or c != functions[-1].c:
+                intervals[-1].upper = knot
+                intervals.append(ContinuousSet(knot, np.PINF, INC, EXC))
+                functions.append(LinearFunction(m, c) if m else ConstantFunction(c))
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
-- 
2.43.0


From d8bbfdd21eb2ce7537cc146b2a6c7a4a0d90a6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 14/75] fix: Numeric._p counts jumps at interval bounds and
 overlapping intervals once

---
 src/jpt/distributions/univariate/numeric.py | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..3f59da1 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -23,7 +23,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC, EXC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -268,22 +268,22 @@ class Numeric(Distribution):
         if not isinstance(value, (NumberSet, numbers.Number)):
             raise TypeError(
                 'Argument must be numbers.Number or '
-                'jpt.base.intervals.NumberSet (got %s).' % type(labels)
+                'jpt.base.intervals.NumberSet (got %s).' % type(value)
             )
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
-        elif isinstance(value, RealSet):
+        value = value.simplify()
+        if isinstance(value, RealSet):
             return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+        if value.isempty():
             return 0
-        probmass = (
-                (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
-                (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
+        # A jump of the CDF at a bound only counts if the bound belongs to the interval
+        upper = value.upper if value.right == INC else np.nextafter(value.upper, np.NINF)
+        lower = value.lower if value.left == EXC else np.nextafter(value.lower, np.NINF)
+        return (
+            (self.cdf.at(upper).eval(value.upper) if value.upper != np.PINF else 1.) -
+            (self.cdf.at(lower).eval(value.lower) if value.lower != np.NINF else 0.)
         )
-        if not probmass:
-            return probspace in value
-        return probmass
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
-- 
2.43.0


From d0e75dd47e9dc9f9a82fc30aa43333d28807e3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 15/75] fix: cropping a quantile distribution handles jumps and
 segments without probability mass

---
 src/jpt/distributions/quantile/quantiles.pyx | 93 +++++++++-----------
 1 file changed, 43 insertions(+), 50 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index e85821c..32355eb 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -267,59 +267,52 @@ cdef class QuantileDistribution:
                 )
             )
 
-        # I: crop
-        cdf_ = self.cdf.crop(interval)
+        lower = interval.lowermost()
+        upper = interval.uppermost()
 
-        # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
-
-        # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
-        cdf.intervals.append(ContinuousSet(np.NINF, cdf_.intervals[0].lower, EXC, EXC))
-        cdf.functions.append(ConstantFunction(0.))
-
-        # III: stretch function to represent a proper quantile fn
-        alpha = cdf_.functions[-1].eval(interval.uppermost())
-
-        f_ = cdf_.functions[0]
-        for i, f in zip(cdf_.intervals, cdf_.functions):
-            if f == ConstantFunction(0.):
-                cdf.intervals[-1].upper = i.upper
-                continue
-            y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
-            f_ = f
-            cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
-            upper_ = np.nextafter(i.upper, i.upper - 1)
-
-            if isinstance(f, ConstantFunction) or i.size() == 1:
-                cdf.functions.append(ConstantFunction(y + c))
-            else:
-                cdf.intervals[-1].lower = cdf.intervals[-2].upper
-                cdf.functions.append(LinearFunction.from_points((i.lower, y + c),
-                                                                (upper_, (f.m / alpha) * (upper_ - i.lower) + y + c)))
-        if cdf.functions[-1] == ConstantFunction(1.):
-            cdf.intervals[-1].upper = np.PINF
-            cdf.intervals[-1].right = EXC
-            if len(cdf.intervals) > 1:
-                cdf.intervals[-1].lower = cdf.intervals[-2].upper
+        if interval.size() == 1:
+            cdf.append(ContinuousSet(np.NINF, lower, EXC, EXC), ConstantFunction(0.))
         else:
-            if interval.uppermost() in cdf.intervals[-1]:
-                cdf.intervals[-1].upper = np.nextafter(cdf.intervals[-1].upper, cdf.intervals[-1].upper - 1)
-
-            # everything right of the rightmost point of the cropped function evaluates to 1
-            cdf.functions.append(ConstantFunction(1.))
-            cdf.intervals.append(ContinuousSet(cdf.intervals[-1].upper, np.PINF, INC, EXC))
-
-        # Clean the function segments that might have become empty
-        intervals_ = []
-        functions_ = []
-        for i, f in zip(cdf.intervals, cdf.functions):
-            if not i.isempty():
-                intervals_.append(i.copy())
-                functions_.append(f.copy())
-        cdf.functions = functions_
-        cdf.intervals = intervals_
+            # The mass left of the interval; a jump at a bound only counts if that bound is included
+            head = 0. if np.isinf(lower) else self._cdf.at(np.nextafter(lower, np.NINF)).eval(interval.lower)
+            shifted = self._cdf.add(ConstantFunction(-head))
+            # The mass in the interval
+            alpha = 1. - head if np.isinf(upper) else shifted.eval(upper)
+
+            if alpha <= 0:
+                raise Unsatisfiability('CDF has zero Probability in %s' % interval)
+
+            # Crop and stretch the segments in order to represent a proper quantile function
+            cdf.append(ContinuousSet(np.NINF, np.PINF, EXC, EXC), ConstantFunction(0.))
+            f_ = None
+            for i, f in shifted.iter():
+                x1 = max(i.lower, lower)
+                x2 = np.nextafter(min(i.upper, interval.upper), np.NINF)
+                if x1 > x2:
+                    continue
+                if f_ is None:
+                    y = f.eval(x1) / alpha
+                else:  # If the function is continuous (no jump), the last term is 0
+                    y = cdf.functions[-1].eval(x1) + (f.eval(x1) - f_.eval(x1)) / alpha
+                f_ = f
+                if f.m == 0 or x1 == x2:
+                    g = ConstantFunction(y)
+                else:
+                    g = LinearFunction.from_points((x1, y), (x2, f.m / alpha * (x2 - x1) + y))
+                if g == cdf.functions[-1]:
+                    continue
+                cdf.intervals[-1].upper = x1
+                cdf.append(ContinuousSet(x1, np.PINF, INC, EXC), g)
+
+        # everything right of the rightmost point of the cropped function evaluates to 1
+        if cdf.functions[-1] != ConstantFunction(1.):
+            upper = min(upper, self._cdf.intervals[-1].lower)
+            if cdf.intervals[-1].lower >= upper:
+                del cdf.intervals[-1]
+                del cdf.functions[-1]
+            cdf.intervals[-1].upper = upper
+            cdf.append(ContinuousSet(upper, np.PINF, INC, EXC), ConstantFunction(1.))
 
         result = QuantileDistribution(self.epsilon, min_samples_mars=self.min_samples_mars)
         result.cdf = cdf
-- 
2.43.0


From 8324990d4dab53c1e69b1d146260dec22df459b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 16/75] fix: cropping a numeric distribution to a union weights
 the parts by their probabilities

---
 src/jpt/distributions/univariate/numeric.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 3f59da1..b4bf893 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -371,18 +372,21 @@ class Numeric(Distribution):
         :type restriction: float or int or ContinuousSet
         """
 
-        # for real sets the result is a merge of the single ContinuousSet crops
+        if isinstance(restriction, NumberSet):
+            restriction = restriction.simplify()
+
+        # for real sets the result is a mixture of the single ContinuousSet crops,
+        # weighted by their probabilities
         if isinstance(restriction, RealSet):
-            distributions = []
+            parts = [(i, self._p(i)) for i in restriction.intervals]
+            parts = [(i, p) for i, p in parts if p > 0]
 
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
-                )
+            if not parts:
+                raise Unsatisfiability('Zero probability in %s' % restriction)
 
             return self.merge(
-                distributions,
-                [1 / len(distributions)] * len(distributions)
+                [self._crop(i) for i, _ in parts],
+                normalized([p for _, p in parts])
             )
 
         elif isinstance(restriction, ContinuousSet):
-- 
2.43.0


From 10080dbf0a8fea48d5352961b730dce45c0bf219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:44 +0000
Subject: [PATCH 17/75] fix: cropping a numeric distribution to a number does
 not change the distribution

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index b4bf893..66159f9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -398,7 +398,7 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)().create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From b7f6112d5c2e49f7896fb96d533643f57a45be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 18/75] fix: moments of numeric distributions include the jumps
 of the CDF

---
 src/jpt/distributions/univariate/numeric.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 66159f9..83ab1f2 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -543,7 +543,7 @@ class Numeric(Distribution):
             center: float,
             value_transform: Optional[Callable] = None
     ) -> float:
-        r"""Calculate the central moment of the r-th order almost everywhere.
+        r"""Calculate the moment of the r-th order about ``center``.
 
         .. math:: \int (x - c)^{r} p(x)
 
@@ -557,14 +557,15 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
         result = 0
+        # Values with positive probability, i.e. the jumps of the CDF
+        for (i1, f1), (i2, f2) in pairwise(self.cdf.iter()):
+            jump = f2.eval(i2.lower) - f1.eval(i2.lower)
+            if jump:
+                result += jump * pow(value_transform(i2.lower) - center, order)
+        # The density almost everywhere else
+        if self.is_dirac_impulse():
+            return result
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
-- 
2.43.0


From 176aed3ec50476aba59f0d5eab78d6f930273794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:53 +0000
Subject: [PATCH 19/75] fix: Numeric.update mixes in the proportion 1-w to w

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 83ab1f2..e4cd200 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -350,7 +350,7 @@ class Numeric(Distribution):
             raise TypeError('Can only update with distribution of the same type, got %s' % type(dist))
         tmp = Numeric.merge(
             [self, dist],
-            normalized([1, weight])
+            [1 - weight, weight]
         )
         self.values = tmp.values
         self.labels = tmp.labels
-- 
2.43.0


From eb46b80b9ac1e0bc9321583a344befed8f6e5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 20/75] fix: sampling from quantile distributions whose CDF has
 jumps

---
 src/jpt/distributions/quantile/quantiles.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 32355eb..2ed7365 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -497,10 +497,17 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
+        # The parts of the distribution: the segments of the CDF and its jumps, along with their probabilities
+        parts = []
+        probabilities = []
+        for (i1, f1), (i2, f2) in pairwise(self.cdf.iter()):
+            if f1.m and np.isfinite(i1.lower):
+                parts.append(i1)
+                probabilities.append(f1.eval(i1.upper) - f1.eval(i1.lower))
+            parts.append(ContinuousSet(i2.lower, i2.lower))
+            probabilities.append(f2.eval(i2.lower) - f1.eval(i2.lower))
+        interval_probabilities = np.clip(np.array(probabilities), 0, None)
+        interval_probabilities /= interval_probabilities.sum()
 
         # sample in which function part the samples will be
         sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
@@ -510,7 +517,7 @@ cdef class QuantileDistribution:
         result = np.zeros((n, ))
 
         # for every interval
-        for idx, interval in enumerate(interval for interval in self.cdf.intervals[1:-1]):
+        for idx, interval in enumerate(parts):
 
             # get the indices where the samples are from this interval
             indices = np.where(sample_intervals == idx)[0]
-- 
2.43.0


From 343cf451cbce665a4a7d9d6ae8b4f2e1d6f64ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 21/75] fix: quantile functions of CDFs with jumps or small
 slopes

---
 src/jpt/distributions/quantile/quantiles.pyx | 39 ++++++++------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 2ed7365..6ead441 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -375,37 +375,28 @@ cdef class QuantileDistribution:
 
             self._assert_consistency()
 
-            if len(self._cdf.functions) == 2:
-                ppf.intervals[-1].upper = 1
-                ppf.functions.append(Undefined())
-                ppf.intervals.append(ContinuousSet(1, one_plus_eps, INC, EXC))
-                ppf.functions.append(ConstantFunction(self._cdf.intervals[-1].lower))
-                ppf.intervals.append(ContinuousSet(one_plus_eps, np.PINF, INC, EXC))
-                ppf.functions.append(Undefined())
-                self._ppf = ppf
-                return ppf
+            ppf.intervals[-1].upper = 0
+            ppf.functions.append(Undefined())
 
             y_cdf = 0
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
-
-                if f.is_invertible():
-                    ppf.functions.append(f.invert())
-                    const = 0
-                elif not f.c:
-                    ppf.functions.append(Undefined())
-                elif f(interval.lower) > y_cdf:
-                    ppf.functions.append(ConstantFunction(interval.lower))
-                else:
+                if np.isinf(interval.lower):
                     continue
 
-                if not np.isinf(interval.upper):
-                    ppf.intervals[-1].upper = min(one_plus_eps, f(interval.upper))
-                else:
-                    ppf.intervals[-1].upper = one_plus_eps
+                # A jump of the CDF: all levels it skips belong to the jump's position
+                if f.eval(interval.lower) - y_cdf > 1e-12:
+                    y_cdf = min(one_plus_eps, f.eval(interval.lower))
+                    ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, y_cdf, INC, EXC))
+                    ppf.functions.append(ConstantFunction(interval.lower))
 
-                ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
-                y_cdf = min(one_plus_eps, f(interval.upper))
+                if f.m > 0:
+                    upper = min(one_plus_eps, f.eval(interval.upper))
+                    if upper > ppf.intervals[-1].upper:
+                        y_cdf = upper
+                        ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, y_cdf, INC, EXC))
+                        ppf.functions.append(f.invert())
 
+            ppf.intervals.append(ContinuousSet(ppf.intervals[-1].upper, np.PINF, INC, EXC))
             ppf.intervals[-2].upper = ppf.intervals[-1].lower = one_plus_eps
             ppf.functions.append(Undefined())
 
-- 
2.43.0


From 51500f7228809838ca4470ddf22631ecec3bd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 22/75] fix: ranked explanations of numeric distributions list
 every density level once

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e4cd200..98a196f 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -207,7 +207,7 @@ class Numeric(Distribution):
         :param k: The number of solutions to generate, defaults to the maximum possible number.
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
-        likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
+        likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
-- 
2.43.0


From 47bf4ab2955fb221ae7b4f10ddf6b4906088a483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:37 +0000
Subject: [PATCH 23/75] fix: unpickling distributions restores their parameters

---
 src/jpt/distributions/univariate/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..6bdebd3 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -177,7 +177,7 @@ class Distribution:
         return self.to_json()
 
     def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+        self.__dict__ = type(self).from_json(state).__dict__
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
-- 
2.43.0


From 9d0940ca8d7534dccf6a3abd21afb5c8b6adc192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 24/75] fix: the most probable state of an impulse is its
 position

---
 src/jpt/distributions/univariate/numeric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 98a196f..7747f25 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -207,6 +207,9 @@ class Numeric(Distribution):
         :param k: The number of solutions to generate, defaults to the maximum possible number.
         :return: A list containing a tuple containing the likelihood and state in descending order.
         """
+        if self.is_dirac_impulse():
+            x = self.cdf.intervals[0].upper
+            return [(ContinuousSet(x, x), np.PINF)][:k]
         likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
         sorted_likelihood = sorted(
             likelihoods,
-- 
2.43.0


From 9739c6047fa3f19a4447e34813c8bcc079373807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:35 +0000
Subject: [PATCH 25/75] fix: cropping a numeric distribution to the empty set
 is unsatisfiable

---
 src/jpt/distributions/quantile/quantiles.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 6ead441..cfaebff 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -253,6 +253,9 @@ cdef class QuantileDistribution:
         if self._cdf is None:
             raise RuntimeError('No quantile distribution fitted. Call fit() first.')
 
+        if interval.isempty():
+            raise Unsatisfiability('Zero probability in the empty set %s' % interval)
+
         # if given interval is outside quantile boundaries,
         # cropping would result in a non-valid quantile
         if (interval.uppermost() < self._cdf.intervals[0].upper or
-- 
2.43.0


From dd3f6bc56b584b185657c7deaaff813256491c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:12 +0000
Subject: [PATCH 26/75] fix: discrete distributions can be updated with
 themselves

---
 src/jpt/distributions/univariate/integer.py     | 3 +--
 src/jpt/distributions/univariate/multinomial.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..cd0880a 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -360,8 +360,7 @@ class Integer(Distribution):
 
         if self._params is None:
             self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        self._params = self._params * (1 - weight) + dist._params * weight
 
         return self
 
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..79241ef 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -442,8 +442,7 @@ class Multinomial(Distribution):
             raise ValueError('Weight must be in [0, 1], got %s' % weight)
         if self._params is None:
             self._params = np.zeros(self.n_values)
-        self._params *= 1 - weight
-        self._params += dist._params * weight
+        self._params = self._params * (1 - weight) + dist._params * weight
 
         return self
 
-- 
2.43.0


From 154ade157eabf17acf9584bd7f3316286835287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 27/75] fix: cropping a multinomial to a value of zero
 probability is unsatisfiable

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 79241ef..3466bce 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
-- 
2.43.0


From 2efb7f350b067584985a37c4f65581872350db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 28/75] fix: mappings of different lengths are not equal

---
 src/jpt/distributions/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..6bb0ba0 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self) != len(other):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From d776d44be7c2b2efe897a3a74e1ce9e97bf2f4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 29/75] fix: the probabilities of boolean distributions can be
 assigned

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 3466bce..212ae6f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -634,7 +634,7 @@ class Bool(Multinomial):
 
     def __setitem__(self, v, p):
         if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
+            super().__setitem__(not v, 1 - p)
         super().__setitem__(v, p)
 
 
-- 
2.43.0


From c65d252031608d0453bedfe5e2070a51547c4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:13 +0000
Subject: [PATCH 30/75] fix: roulette wheels never select elements of zero
 weight

---
 src/jpt/base/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..0c52849 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,7 +29,7 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            if 0 < bound and x <= bound:
                 return i
 
     def sample(self, n=1):
-- 
2.43.0


From 868c85536a0d6286a3fd42cace2664a60006d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 31/75] fix: evaluate every symbol of a symbolic feature
 against the rest for numeric targets, too

---
 src/jpt/learning/impurity.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..8b1d7cb 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1134,13 +1134,15 @@ cdef class Impurity:
             # if this variable is symbolic
             if symbolic:
 
+                # every symbol is evaluated against the remaining ones
+                self.num_samples[...] = 0
+
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
                     self.symbols_left[...] = 0
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From ffccbb6b6093fd409cf38bbdfcd570e49fb5fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 32/75] fix: index the domain sizes in the impurity by symbolic
 targets, as all other buffers are

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 8b1d7cb..d75504f 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From f0aa6ea4723ff849f9e23bafb9774fea324651ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 33/75] fix: do not count targets that do not depend on the
 feature being split on

---
 src/jpt/learning/impurity.pyx | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index d75504f..ccdd59f 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1105,6 +1105,12 @@ cdef class Impurity:
                     result=self.variances_right
                 )
 
+                # targets that do not depend on this feature are not improved by splitting on it
+                for i in range(self.n_num_vars):
+                    if not self.depends(self.numeric_dependency_matrix[var_idx, :], i):
+                        self.variances_left[i] = variances_total[i]
+                        self.variances_right[i] = variances_total[i]
+
                 # compute the variance improvement for this split
                 impurity_improvement += compute_var_improvements(
                     variances_total,
@@ -1124,6 +1130,13 @@ cdef class Impurity:
                     # update gini impurity left and right of the split
                     self.gini_impurity(self.symbols_left, samples_left, self.gini_left)
                     self.gini_impurity(self.symbols_right, samples_right, self.gini_right)
+
+                    # targets that do not depend on this feature are not improved by splitting on it
+                    for i in range(self.n_sym_vars):
+                        if not self.depends(self.symbolic_dependency_matrix[var_idx, :], i):
+                            self.gini_left[i] = self.gini_impurities[i]
+                            self.gini_right[i] = self.gini_impurities[i]
+
                     impurity_improvement += (
                         (gini_total -
                         mean(self.gini_left) * (<DTYPE_t> samples_left / <DTYPE_t> n_samples) -
@@ -1164,6 +1177,20 @@ cdef class Impurity:
 
         return max_impurity_improvement
 
+    cdef inline int depends(Impurity self, SIZE_t[::1] dependent_columns, SIZE_t target) nogil:
+        """
+        Check if a target is among the dependent ones.
+        :param dependent_columns: the indices of the dependent variables, terminated by -1
+        :param target: the index of the target
+        """
+        cdef SIZE_t i
+        for i in range(dependent_columns.shape[0]):
+            if dependent_columns[i] == target:
+                return True
+            if dependent_columns[i] == -1:
+                return False
+        return False
+
     cdef inline void update_numeric_stats_with_dependencies(Impurity self,
                                                             SIZE_t sample_idx,
                                                             SIZE_t[::1] dependent_columns) nogil:
-- 
2.43.0


From a13dafee1c03af7df70bba6282994e8293b041e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 34/75] fix: nodes contain exactly the numbers that their paths
 admit

---
 src/jpt/trees.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..3b076d8 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -46,7 +46,7 @@ except ModuleNotFoundError:
     import pyximport
     pyximport.install()
 finally:
-    from .base.intervals import ContinuousSet as Interval, EXC, INC, R, ContinuousSet, RealSet
+    from .base.intervals import ContinuousSet as Interval, EXC, INC, R, ContinuousSet, RealSet, NumberSet
     from .learning.impurity import Impurity
     from .base.functions import PiecewiseFunction, Undefined
 
@@ -123,7 +123,7 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, NumberSet):
                         # if the ranges don't intersect return false
                         if value.isdisjoint(restriction):
                             return False
@@ -131,7 +131,7 @@ class Node:
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if not restriction.contains_value(value):
                             return False
 
                 # if the variable is symbolic or integer
@@ -176,7 +176,12 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                result *= (
+                    (samples[:, index] >= restriction.lower if restriction.left == INC
+                     else samples[:, index] > restriction.lower) &
+                    (samples[:, index] <= restriction.upper if restriction.right == INC
+                     else samples[:, index] < restriction.upper)
+                )
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From 6aad92d79e911182a8184b1549a7408f3196bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 35/75] fix: the likelihood of a union of intervals does not
 count densities of single points

---
 src/jpt/trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3b076d8..cbcfcd1 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -519,7 +519,11 @@ class Leaf(Node):
             validation processes.
         """
         if isinstance(value, RealSet):
-            return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
+            value = value.simplify()
+            # single points in a union do not add to its probability mass
+            if isinstance(value, RealSet):
+                return self.distributions[variable]._p(value)
+            return self._numeric_probability(variable, value, dirac_scaling, min_distances)
 
         # handle ContinuousSet
         elif isinstance(value, ContinuousSet):
-- 
2.43.0


From 484e3607b56bd73dfaba96b3a1788ce89e4ed475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 36/75] fix: evidence can be applied to trees with inner nodes
 that have a single child

---
 src/jpt/trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cbcfcd1..6752b05 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2219,6 +2219,7 @@ class JPT:
 
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
+        expanded = set()
 
         while fringe:
             # get the next node to inspect
@@ -2242,8 +2243,9 @@ class JPT:
                     del conditional_jpt.innernodes[node.idx]
                     rm = True
 
-                # else recurse into its children
-                elif len(node.children) == 2:
+                # else recurse into its children, unless that has been done before
+                elif node.idx not in expanded:
+                    expanded.add(node.idx)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From 865927f3a315726133d1470e591725f39d4de96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 37/75] fix: conditional trees can be pruned

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 6752b05..e099125 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2619,6 +2619,8 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
+            if len(node.children) != 2:
+                continue
             left, right = node.children
             if (
                     node.idx not in jpt.innernodes
-- 
2.43.0


From 13109fb5db45ca4becf59d136716cf41b8c93b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 38/75] fix: query and evidence about the same variable are not
 independent

---
 src/jpt/trees.py | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index e099125..8d05308 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1072,25 +1072,24 @@ class JPT:
         p_q = 0.
         p_e = 0.
 
+        def p_leaf(leaf, assignment):
+            p_m = leaf.prior
+            for var, val in assignment.items():
+                if var in leaf.path:
+                    val = val.intersection(leaf.path[var])
+                p_m *= leaf.distributions[var]._p(val)
+            return p_m
+
+        # the event that both query and evidence hold
+        joint = evidence_.copy()
+        for var, val in query_.items():
+            joint[var] = val.intersection(evidence_[var]) if var in evidence_ else val
+
         for leaf in self.apply(evidence_):
-            p_m = 1
-            for var in set(evidence_.keys()):
-                evidence_val = evidence_[var]
-                if var in leaf.path:  # var.numeric and
-                    evidence_val = evidence_val.intersection(leaf.path[var])
-                p_m *= leaf.distributions[var]._p(evidence_val)
-
-            w = leaf.prior
-            p_m *= w
-            p_e += p_m
-
-            if leaf.applies(query_):
-                for var in set(query_.keys()):
-                    query_val = query_[var]
-                    if var in leaf.path:
-                        query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
-                p_q += p_m
+            p_e += p_leaf(leaf, evidence_)
+
+            if leaf.applies(joint):
+                p_q += p_leaf(leaf, joint)
 
         if p_e == 0:
             if fail_on_unsatisfiability:
-- 
2.43.0


From 2496d013decb84077f53de78ef591ccb84f58ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:28 +0000
Subject: [PATCH 39/75] fix: posteriors of evidence variables satisfy the
 evidence in every leaf

---
 src/jpt/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 8d05308..d7e4f76 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1153,8 +1153,9 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
-                    l_var = leaf.distributions[var].pdf(evidence_set.lower)
+                point = evidence_[var].simplify() if isinstance(evidence_[var], RealSet) else evidence_[var]
+                if isinstance(point, ContinuousSet) and point.size() == 1:
+                    l_var = leaf.distributions[var].pdf(point.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
                     l_var = leaf.distributions[var]._p(evidence_set)
@@ -1179,7 +1180,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From f0173f687346599577b82d631b3e0f0b4c5f4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:58 +0000
Subject: [PATCH 40/75] fix: deep copies of variable maps keep all their
 entries

---
 src/jpt/inference/mpe.py | 2 +-
 src/jpt/variables.py     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..3d30db4 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -177,7 +177,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..26e17a8 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -1,6 +1,7 @@
 '''
 © Copyright 2021, Mareike Picklum, Daniel Nyga.
 '''
+import copy
 import hashlib
 import math
 import numbers
@@ -689,10 +690,10 @@ class VariableMap:
 
         vmap = type(self)(variables=self._variables.values())
         for vname, value in self.items():
-            if isinstance(value, (numbers.Number, str)):
-                vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            if isinstance(value, (set, list, NumberSet)):
                 vmap[vname] = value.copy()
+            else:
+                vmap[vname] = copy.deepcopy(value)
         return vmap
 
     @classmethod
-- 
2.43.0


From 3115753a5620a3d4e1f0c7020ba1a36002b6dcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 41/75] fix: k-MPE states are ordered by their likelihood in
 the tree

---
 src/jpt/trees.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index d7e4f76..a6f5301 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1319,11 +1319,17 @@ class JPT:
         :param k: the number of solutions to return
         :return: An iterator with states ordered by likelihood.
         """
+        if evidence is None:
+            evidence = {}
+        if isinstance(evidence, dict):
+            evidence = self.bind(evidence)
         if isinstance(evidence, LabelAssignment):
             evidence_ = evidence.value_assignment()
         else:
             evidence_ = evidence
 
+        self._check_variable_assignment(evidence_)
+
         # apply the evidence given
         conditional_jpt = self.conditional_jpt(evidence_, fail_on_unsatisfiability)
         if conditional_jpt is None:
@@ -1339,20 +1345,24 @@ class JPT:
                         likelihoods.append(likelihood_max)
         likelihood_max = ifnot(likelihoods, 1, max)
         mpe_solvers = [
-            MPESolver(
-                distributions=leaf.distributions,
-                likelihood_divisor=likelihood_max if likelihoods else None
-            ).solve() for leaf in conditional_jpt.leaves.values()
+            (
+                leaf.prior,
+                MPESolver(
+                    distributions=leaf.distributions,
+                    likelihood_divisor=likelihood_max if likelihoods else None
+                ).solve()
+            ) for leaf in conditional_jpt.leaves.values()
         ]
 
+        # The candidates are the next-best explanations of all leaves, weighted by the leaf priors.
         mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
+            data=[(*next(solver), prior, solver) for prior, solver in mpe_solvers],
+            key=lambda candidate: -candidate[1] * candidate[2]
         )
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, prior, solver = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1360,9 +1370,9 @@ class JPT:
                 ]
             )
             values = values.label_assignment()
-            yield values, likelihood
+            yield values, likelihood * prior
             try:
-                mpe_candidates.push((*next(solver), solver))
+                mpe_candidates.push((*next(solver), prior, solver))
             except StopIteration:
                 pass
             count += 1
-- 
2.43.0


From ca4e8f99d5ca093fc603c25632d2ddee33868cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:34 +0000
Subject: [PATCH 42/75] fix: expectations default to the variables without
 evidence

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a6f5301..ffbc7fe 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1232,10 +1232,10 @@ class JPT:
 
         self._check_variable_assignment(evidence_)
 
-        variables = ifnot(
-            [v if isinstance(v, Variable) else self.varnames[v] for v in ifnone(variables, self.variables)],
-            set(self.variables) - set(evidence_ or {})
-        )
+        variables = [
+            v if isinstance(v, Variable) else self.varnames[v]
+            for v in ifnone(variables, [v for v in self.variables if v not in evidence_])
+        ]
 
         posteriors = self.posterior(
             variables,
-- 
2.43.0


From 698f9251f5c6bd5b1a8548dc4889f58742e7114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 43/75] fix: messages about unsatisfiable evidence can be
 rendered

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index ffbc7fe..d6aafcc 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1094,7 +1094,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise ValueError(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1189,7 +1189,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1245,7 +1245,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2298,7 +2298,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From 57865712adf17579df4c8dc430e58e778c32b598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 44/75] fix: intersect queries with evidence that is a union of
 intervals

---
 src/jpt/trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index d6aafcc..3d011f6 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1083,7 +1083,11 @@ class JPT:
         # the event that both query and evidence hold
         joint = evidence_.copy()
         for var, val in query_.items():
-            joint[var] = val.intersection(evidence_[var]) if var in evidence_ else val
+            if var in evidence_:
+                other = evidence_[var]
+                # RealSets can be intersected with intervals, but not vice versa
+                val = other.intersection(val) if isinstance(other, RealSet) else val.intersection(other)
+            joint[var] = val
 
         for leaf in self.apply(evidence_):
             p_e += p_leaf(leaf, evidence_)
-- 
2.43.0


From 507fd332cac27b6320c7b2cffc499b62947e8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 45/75] fix: the density of a world with symbolic or integer
 variables

---
 src/jpt/trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3d011f6..3e589b2 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1013,7 +1013,8 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
+            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value) if var.numeric
+                                      else leaf.distributions[var]._p({value})
                                       for var, value in values_scalars.items()) if values_scalars else 1)
         return pdf
 
-- 
2.43.0


From 9abef89feee927697780297c0c16eeba73f204c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 46/75] fix: moments are computed about the center in label
 space

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 3e589b2..2569a2e 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2569,9 +2569,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # The moments of the distributions are about labels
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From 64fc876ae862c685ee2706a2c07a215119f2b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:23 +0000
Subject: [PATCH 47/75] fix: rank sets of equally probable states by their
 probability, not by the mass of the set

---
 src/jpt/inference/mpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index 3d30db4..410e13f 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -147,7 +147,7 @@ class MPESolver:
                             -np.log(
                                 (dist.pdf / likelihood_divisor).eval(val.any_point())
                                 if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                else self.domains[var][frozenset(val)]
                             )
                         )
                         for val in self.domains[var]],
-- 
2.43.0


From 4c8cc29ed5fba1f4f7fe8c41187a463d81e87db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:23 +0000
Subject: [PATCH 48/75] fix: the similarity of numeric distributions accounts
 for their jumps

---
 src/jpt/distributions/univariate/numeric.py | 27 +++++++++++++--------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 7747f25..df0d5cd 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -614,20 +614,27 @@ class Numeric(Distribution):
             return 1
         points = list(
             sorted(
-                set(d1.pdf.boundaries()) | set(d2.pdf.boundaries())
+                set(d1.cdf.boundaries()) | set(d2.cdf.boundaries())
             )
         )
+
+        def masses(d: 'Numeric') -> List[float]:
+            # The probability mass of every point and of every interval between them
+            result = []
+            p_last = 0
+            for p in points:
+                p_left = d.cdf.functions[d.cdf.idx_at(np.nextafter(p, np.NINF))].eval(p)
+                p_right = d.cdf.eval(p)
+                result.extend([p_left - p_last, p_right - p_left])
+                p_last = p_right
+            return result
+
         intersection = 0
         union = 0
-        for p1, p2 in pairwise(points):
-            v1 = d1.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            v2 = d2.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            intersection += min(v1, v2) * (p2 - p1)
-            union += max(v1, v2) * (p2 - p1)
+        # All densities are constant in between the points
+        for m1, m2 in zip(masses(d1), masses(d2)):
+            intersection += min(m1, m2)
+            union += max(m1, m2)
         return intersection / union
 
     def plot(
-- 
2.43.0


From 4786351e79b0649d28d118e56edaf94db0fba61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:09 +0000
Subject: [PATCH 49/75] fix: variables keep their settings when they are
 restored

---
 src/jpt/variables.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 26e17a8..4e26cd5 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -251,13 +251,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', {})
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -384,7 +385,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data.get('settings', {}).get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -424,9 +425,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', {})
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From 4731b62d638143b5ad9edffdfeb52711f2b78936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 50/75] fix: restored trees equal trees with default
 dependencies

---
 src/jpt/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 2569a2e..37b0404 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -775,9 +775,10 @@ class JPT:
         # the interface isn't modified therefore the jpt should work as before if not
         # specified different
         if dependencies is None:
-            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
-                var: list(self.targets) for var in self.features
-            })
+            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
+                {var: list(self.targets) for var in self.features},
+                variables=self.variables
+            )
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From 7dd6d50c3e4a27e5b113bab07fd156628eaa75e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:16 +0000
Subject: [PATCH 51/75] fix: an impurity improvement of -1 is not an error

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index ccdd59f..698d293 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -775,7 +775,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -957,7 +957,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From c4cc63b8f35a464b4bfa6b381d6b54e4495ce724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:04 +0000
Subject: [PATCH 52/75] fix: distributions without any density have most
 probable states, intervals are not equal to other sets

---
 src/jpt/base/intervals.pyx                  |  2 ++
 src/jpt/distributions/univariate/numeric.py | 12 +++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 3ba96af..7c80d50 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1222,6 +1222,8 @@ cdef class ContinuousSet(NumberSet):
     def __eq__(self, other):
         if isinstance(other, RealSet):
             return other == self
+        if not isinstance(other, NumberSet):
+            return False
         return all((
             self.min == other.min,
             self.max == other.max
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index df0d5cd..3db24d3 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -2,7 +2,7 @@
 import copy
 import numbers
 import os
-from collections import deque
+from collections import deque, defaultdict
 from operator import itemgetter
 from typing import Union, Iterable, Optional, Dict, Any, Type, Callable, List, Tuple
 
@@ -211,6 +211,16 @@ class Numeric(Distribution):
             x = self.cdf.intervals[0].upper
             return [(ContinuousSet(x, x), np.PINF)][:k]
         likelihoods = {f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)}
+        if not likelihoods:
+            # Without any density, the states are the values of positive probability
+            jumps = defaultdict(list)
+            for (i1, f1), (i2, f2) in pairwise(self.cdf.iter()):
+                jump = f2.eval(i2.lower) - f1.eval(i2.lower)
+                if jump:
+                    jumps[jump].append(ContinuousSet(i2.lower, i2.lower))
+            return [
+                (RealSet(jumps[jump]).simplify(), np.PINF) for jump in sorted(jumps, reverse=True)
+            ][:k]
         sorted_likelihood = sorted(
             likelihoods,
             reverse=True
-- 
2.43.0


From ee93efc1419e0e9a61ca3840f57af253a5991e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:38 +0000
Subject: [PATCH 53/75] fix: Heap restores its order after deleting an item

---
 src/jpt/base/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..8d35f2f 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
@@ -526,5 +527,5 @@ class Heap:
                 return idx
         else:
             raise ValueError(
-                'Item %s not found.' % item
+                'Item %s not found.' % str(item)
             )
-- 
2.43.0


From 0d96073ae2fc751988a8fff3d7bc0f776964cf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:39 +0000
Subject: [PATCH 54/75] fix: probabilities of intervals are never negative
 through rounding

---
 src/jpt/distributions/univariate/numeric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 3db24d3..2f052f3 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -294,9 +294,10 @@ class Numeric(Distribution):
         # A jump of the CDF at a bound only counts if the bound belongs to the interval
         upper = value.upper if value.right == INC else np.nextafter(value.upper, np.NINF)
         lower = value.lower if value.left == EXC else np.nextafter(value.lower, np.NINF)
-        return (
+        return max(
             (self.cdf.at(upper).eval(value.upper) if value.upper != np.PINF else 1.) -
-            (self.cdf.at(lower).eval(value.lower) if value.lower != np.NINF else 0.)
+            (self.cdf.at(lower).eval(value.lower) if value.lower != np.NINF else 0.),
+            0.
         )
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
-- 
2.43.0


From b60314fdd266f8534a3755c1688e43abc8465d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 55/75] fix: subtracting a variable map from itself

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 4e26cd5..294f54e 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -650,7 +650,7 @@ class VariableMap:
 
     def __isub__(self, other):
         if isinstance(other, VariableMap):
-            for v in other:
+            for v in list(other):
                 if v in self:
                     del self[v]
         else:
-- 
2.43.0


From 47b88f04389dc5c8e89146e414533d5569403b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 56/75] fix: all kinds of assignments and values survive JSON

---
 src/jpt/variables.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 294f54e..b7aaa4a 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -745,6 +745,14 @@ class VariableAssignment(VariableMap):
             copy[var] = var.assignment2set(val)
         return copy
 
+    def to_json(self) -> Dict[str, Any]:
+        """ Convert this assignment to a json serializable dictionary. To achieve that sets are replaced
+        with lists."""
+        return {
+            variable.name: to_json(list(value) if isinstance(value, (set, frozenset)) else value)
+            for variable, value in self.items()
+        }
+
     @classmethod
     def from_json(cls,
                   variables: Iterable[Variable],
@@ -757,9 +765,14 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = set(value) if isinstance(value, list) else value
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if not isinstance(value, dict):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
@@ -785,7 +798,7 @@ class LabelAssignment(VariableAssignment):
                                  str]) -> None:
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
-        elif isinstance(variable, SymbolicVariable):
+        elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
             if type(value) is not set:
                 value_ = {value}
             else:
@@ -798,19 +811,6 @@ class LabelAssignment(VariableAssignment):
     def value_assignment(self) -> 'ValueAssignment':
         return ValueAssignment([(var, var.domain.label2value(val)) for var, val in self.items()])
 
-    def to_json(self) -> Dict[str, Any]:
-        """ Convert this LabelAssignment to a json serializable dictionary. To achieve that sets are replaced
-        with lists."""
-        result = dict()
-        for variable, value in self.items():
-            if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
-                    value = list(value)
-
-            result[variable.name] = to_json(value)
-
-        return result
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 3396f5172d8baf505c3d3aacb9c7fd52fc2351b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 57/75] fix: assignments check values of variables given by
 name, and sets of labels

---
 src/jpt/variables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index b7aaa4a..d790924 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -796,9 +796,10 @@ class LabelAssignment(VariableAssignment):
                                  NumberSet,
                                  numbers.Number,
                                  str]) -> None:
+        variable = self._variables.get(variable, variable) if type(variable) is str else variable
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
-        elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
+        elif isinstance(variable, SymbolicVariable):
             if type(value) is not set:
                 value_ = {value}
             else:
@@ -822,9 +823,10 @@ class ValueAssignment(VariableAssignment):
     '''
 
     def __setitem__(self, variable: Variable, value: Union[Set[int], NumberSet, numbers.Number]) -> None:
+        variable = self._variables.get(variable, variable) if type(variable) is str else variable
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
-        elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
+        elif isinstance(variable, SymbolicVariable):
             if type(value) is not set:
                 value_ = {value}
             else:
-- 
2.43.0


From d4272be02d24d17e7be9f718b5d2ed3a6947890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 58/75] fix: refitting a sequence model drops the leaves of the
 previous fit

---
 src/jpt/sequential_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..02e5d23 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -86,6 +86,7 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        self.template_tree.leaves.clear()
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
-- 
2.43.0


From 14272293b41a1496a40d2ee2908b9bdc01e708f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 59/75] fix: messages along long sequences neither vanish nor
 end early

---
 src/jpt/sequential_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 02e5d23..a2c56d6 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -311,7 +311,7 @@ class SequentialJPT:
 
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
         leaf_distribution = {
             var.name: normalized(dist, zeros=.1)
             for var, dist in factor_graph.rv_marginals()
-- 
2.43.0


From 91a2e415a1ec491c39dce1ab732524986ee60560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:10 +0000
Subject: [PATCH 60/75] fix: marginals of sequences are the exact ones, in the
 order of the time steps and leaves

---
 src/jpt/sequential_trees.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index a2c56d6..2a337f6 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -312,10 +312,15 @@ class SequentialJPT:
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
         factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
-        leaf_distribution = {
-            var.name: normalized(dist, zeros=.1)
-            for var, dist in factor_graph.rv_marginals()
-        }
+        try:
+            leaf_distribution = {
+                var.name: normalized(dist)
+                for var, dist in factor_graph.rv_marginals()
+            }
+        except ValueError:
+            raise Unsatisfiability(
+                'The evidence sequence is unsatisfiable.'
+            )
 
         now = datetime.datetime.now()
         self.logger.debug(
@@ -324,19 +329,18 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for timestep, tree in enumerate(altered_jpts):
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
+                    self.template_tree.leaves.keys(),
+                    leaf_distribution["t%s" % timestep]
                 )
             )
 
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+            # the marginals already comprise the priors of the leaves
+            for leaf_idx, leaf in tree.leaves.items():
+                leaf.prior = prior[leaf_idx]
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 050b19cba860527c0d11ebd4116d3a258b15edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 61/75] fix: functions accept numbers as the left operand of +
 and *, and piecewise functions a number to subtract

---
 src/jpt/base/functions.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..258202c 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # Cython also calls this method for ``other + self``
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # Cython also calls this method for ``other * self``
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
@@ -942,7 +946,9 @@ cdef class PiecewiseFunction(Function):
         else:
             return True
 
-    def __sub__(self, other: Function) -> PiecewiseFunction:
+    def __sub__(self, other: Union[float, Function]) -> PiecewiseFunction:
+        if isinstance(other, numbers.Real):
+            other = ConstantFunction(other)
         return self.add(
             other.mul(
                 ConstantFunction(-1)
-- 
2.43.0


From 2d74e5cb4c8a958dd7daaa0b2f29bf42fedca766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 62/75] fix: comparing an undefined with a linear function
 raised a TypeError

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 258202c..81ce372 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -180,7 +180,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and (np.isnan(other.m) or np.isnan(other.c)):
             return True
         return False
 
-- 
2.43.0


From 646cb1683ba4f4ad82702ce4200d86536e93752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 63/75] fix: undefined pieces survive mirroring,
 differentiation and JSON, quadratic pieces JSON

---
 src/jpt/base/functions.pxd |  2 ++
 src/jpt/base/functions.pyx | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pxd b/src/jpt/base/functions.pxd
index 178532f..9f708b0 100644
--- a/src/jpt/base/functions.pxd
+++ b/src/jpt/base/functions.pxd
@@ -52,6 +52,8 @@ cdef class Undefined(Function):
     '''
     cpdef Function xshift(self, DTYPE_t delta)
 
+    cpdef Function xmirror(self)
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 81ce372..e89fc0a 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -199,6 +199,15 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    cpdef Function xmirror(self):
+        return Undefined()
+
+    def differentiate(self):
+        return Undefined()
+
+    def to_json(self):
+        return {'type': 'undefined'}
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -695,6 +704,10 @@ cdef class LinearFunction(Function):
             return LinearFunction(data['slope'], data['intercept'])
         elif data['type'] == 'constant':
             return ConstantFunction(data['value'])
+        elif data['type'] == 'quadratic':
+            return QuadraticFunction.from_json(data)
+        elif data['type'] == 'undefined':
+            return Undefined()
         else:
             raise TypeError('Unknown function type or type not given (%s)' % data.get('type'))
 
@@ -829,7 +842,7 @@ cdef class QuadraticFunction(Function):
         return self
 
     def to_json(self):
-        return {'a': self.a, 'b': self.b, 'c': self.c}
+        return {'type': 'quadratic', 'a': self.a, 'b': self.b, 'c': self.c}
 
     @staticmethod
     def from_json(data):
-- 
2.43.0


From 149c66b84ef496f93bcdd2427a78c2c22d867ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 64/75] fix: linear and quadratic functions can be combined
 with undefined ones, and unsupported operands raise instead of giving None

---
 src/jpt/base/functions.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index e89fc0a..201ebe3 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -585,6 +585,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m * f.value, self.c * f.value)
         elif isinstance(f, LinearFunction):
             return QuadraticFunction(self.m * f.m, self.m * f.c + f.m * self.c, self.c * f.c).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
             raise TypeError('No operator "*" defined for objects of '
                             'types %s and %s' % (type(self).__name__, type(f).__name__))
@@ -596,6 +598,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m, self.c + f)
         elif isinstance(f, ConstantFunction):
             return LinearFunction(self.m, self.c + f.value)
+        elif isinstance(f, (QuadraticFunction, Undefined)):
+            return f.add(self)
         else:
             raise TypeError('Operator "+" undefined for types %s '
                             'and %s' % (type(f).__name__, type(self).__name__))
@@ -777,8 +781,10 @@ cdef class QuadraticFunction(Function):
     cpdef Function mul(self, Function f):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
                                                                              type(f).__name__))
 
     cpdef Function add(self, Function f):
@@ -788,6 +794,11 @@ cdef class QuadraticFunction(Function):
             return QuadraticFunction(self.a, self.b + f.m, self.c + f.c)
         elif isinstance(f, QuadraticFunction):
             return QuadraticFunction(self.a + f.a, self.b + f.b, self.c + f.c)
+        elif isinstance(f, Undefined):
+            return f.add(self)
+        else:
+            raise TypeError('Unsupported operand type(s) for add(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
         return self.a * x * x + self.b * x + self.c
-- 
2.43.0


From 0e290c8a3004f06837ebc9f754eacb7940c78eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 65/75] fix: integral of a linear function without slope over
 an unbounded interval

---
 src/jpt/base/functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 201ebe3..4c52eb7 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -723,10 +723,10 @@ cdef class LinearFunction(Function):
             raise ValueError('The x2 argument must be greater than x1.')
         elif x2 == x1:
             return 0
+        elif self.m == 0:
+            return 0 if not self.c else (self.c * (x2 - x1))
         elif np.isinf(x1) and np.isinf(x2):
-            if self.m != 0:
-                return np.nan
-            return np.PINF if self.c > 0 else np.NINF
+            return np.nan
         elif np.isinf(x1):
             if self.m <= 0:
                 return np.PINF
-- 
2.43.0


From 6792d6c9d85accd6095904f2248410b2914165cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 66/75] fix: a piecewise function equals its prefixes, and
 equal ones have different hashes

---
 src/jpt/base/functions.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 4c52eb7..9a4d134 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -772,6 +772,9 @@ cdef class QuadraticFunction(Function):
     def __eq__(self, other):
         return isinstance(other, QuadraticFunction) and (self.a, self.b, self.c) == (other.a, other.b, other.c)
 
+    def __hash__(self):
+        return hash((QuadraticFunction, self.a, self.b, self.c))
+
     cpdef Function set(self, Function f):
         self.a = f.a
         self.b = f.b
@@ -948,7 +951,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple((i, f) for i, f in self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
@@ -964,6 +967,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self) != len(other):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 87f7dc87140c0e9bfe61c009d8bac58eae71ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 67/75] fix: from_dict sorts pieces with the same lower bound

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9a4d134..6ecf1df 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1035,7 +1035,7 @@ cdef class PiecewiseFunction(Function):
             elif isinstance(function, numbers.Number):
                 function = ConstantFunction(function)
             functions.append(function)
-        fcts = sorted([(i, f) for (i, f) in zip(intervals, functions)], key=lambda a: a[0].lower)
+        fcts = sorted([(i, f) for (i, f) in zip(intervals, functions)], key=lambda a: (a[0].lower, a[0].left))
         plf = PiecewiseFunction()
         plf.intervals.extend([i for i, _ in fcts])
         plf.functions.extend([f for _, f in fcts])
-- 
2.43.0


From 925da8bf7bc1e9a85423f0519dacd8a4141f3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:35 +0000
Subject: [PATCH 68/75] fix: evaluating a piecewise function outside of its
 domain crashed the interpreter

---
 src/jpt/base/functions.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 6ecf1df..257dd92 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1062,7 +1062,8 @@ cdef class PiecewiseFunction(Function):
         return plf
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
-        return self.at(x).eval(x)
+        cdef Function f = self.at(x)
+        return f.eval(x) if f is not None else np.nan
 
     def __call__(self, x: float or np.ndarray):
         if isinstance(x, numbers.Real):
-- 
2.43.0


From e683f89db95b991158f0e754556be84b14c82bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 69/75] fix: sum, product and convolution of piecewise
 functions with domains of different kinds raised a TypeError

---
 src/jpt/base/functions.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 257dd92..9c7af1a 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1146,7 +1146,7 @@ cdef class PiecewiseFunction(Function):
             return result
         elif isinstance(f, PiecewiseFunction):
             domain = RealSet(self.intervals).intersections(RealSet(f.intervals))
-            undefined = self.domain().union(f.domain()).difference(domain)
+            undefined = RealSet(self.intervals).union(f.domain()).difference(domain)
             if not isinstance(undefined, RealSet):
                 undefined = RealSet([undefined])
             result = PiecewiseFunction.from_dict({
@@ -1182,7 +1182,7 @@ cdef class PiecewiseFunction(Function):
                 RealSet(f.intervals)
             )
 
-            undefined = self.domain().union(
+            undefined = RealSet(self.intervals).union(
                 f.domain()
             ).difference(domain)
 
@@ -1793,7 +1793,7 @@ cdef class PiecewiseFunction(Function):
             if (z, integral) not in support_points:
                 support_points.append((z, integral))
             iteration += 1
-        domain = f.domain().union(g.domain())
+        domain = RealSet(f.intervals).union(g.domain())
         if isinstance(domain, ContinuousSet):
             domain = RealSet([domain])
         result = PiecewiseFunction.from_dict({
-- 
2.43.0


From 5e2439d1649bcf0e2a194e2015e5b2737e63aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 70/75] fix: splitting a function where a segment begins leaves
 an empty segment

---
 src/jpt/base/functions.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9c7af1a..7178568 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1285,6 +1285,9 @@ cdef class PiecewiseFunction(Function):
                     f2.intervals[0].left = 1
                 f1.intervals[-1].upper = splitpoint
                 f1.intervals[-1].right = 2
+                if f1.intervals[-1].isempty():  # the function is split where one of its segments begins
+                    f1.intervals.pop()
+                    f1.functions.pop()
                 break
         else:
             raise ValueError('This function is not defined at point %s' % splitpoint)
-- 
2.43.0


From fe7cca62442dcba9f55e2d780515b3be3f6bad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 71/75] fix: stretching ignored quadratic segments

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 7178568..de61b3d 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1305,6 +1305,10 @@ cdef class PiecewiseFunction(Function):
             elif isinstance(f, LinearFunction):
                 f.c *= alpha
                 f.m *= alpha
+            elif isinstance(f, QuadraticFunction):
+                f.a *= alpha
+                f.b *= alpha
+                f.c *= alpha
         return plf
 
     cpdef str pfmt(self):
-- 
2.43.0


From b83b29bfd584d027b473efdb4db38d34084c744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 72/75] fix: cropping made unbounded segments include infinity

---
 src/jpt/base/functions.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index de61b3d..a65f553 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1522,8 +1522,13 @@ cdef class PiecewiseFunction(Function):
         cdef PiecewiseFunction result = PiecewiseFunction()
         for i, f in self.iter():
             if i.intersects(interval):
-                intersection = i.intersection(interval, left=INC, right=EXC)
-                result.intervals.append(intersection)
+                intersection = i.intersection(interval)
+                result.intervals.append(
+                    intersection.ends(
+                        left=INC if np.isfinite(intersection.lower) else EXC,
+                        right=EXC
+                    )
+                )
                 result.functions.append(f.copy())
         return result
 
-- 
2.43.0


From f98d86e34d2253e225e0a1e346aabac7ba540256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 73/75] fix: simplify changed the intervals of the function it
 was called on

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index a65f553..ce1f3ff 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1597,14 +1597,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
         return plf
 
     @staticmethod
-- 
2.43.0


From 3c1c8447904afdfe9b379ad349bb4ef2a394f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 74/75] fix: minimum and maximum of piecewise functions on
 unbounded segments

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index ce1f3ff..aa4e785 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1622,7 +1622,10 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if np.isfinite(i.lower):
+                i_center = (i.min + i.max) * .5 if np.isfinite(i.upper) else i.min + 1
+            else:
+                i_center = i.max - 1 if np.isfinite(i.upper) else 0
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0


From 8793235dce546df97d38e624bd82dcf51bc41518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:36 +0000
Subject: [PATCH 75/75] fix: difference of intervals that differ in their
 representation only raised a ValueError

---
 src/jpt/base/intervals.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 7c80d50..e37454d 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -901,6 +901,8 @@ cdef class ContinuousSet(NumberSet):
             )
         if self.lowermost() > other.lowermost() or self.uppermost() < other.uppermost():
             return False
+        if proper_containment and (self.lower > other.lower or self.upper < other.upper):
+            return False
         if self.lower == other.lower:
             if self.left == _EXC and other.left == _INC:
                 return False
-- 
2.43.0

