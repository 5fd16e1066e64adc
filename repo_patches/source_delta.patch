From 73a4daaaa4caa31123e31394493aa2aabb6b6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 01/96] fix: ContinuousSet.difference of sets that share a
 bound

---
 src/jpt/base/intervals.pyx | 49 +++++++++++++-------------------------
 1 file changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 196b5a6..7db02af 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1037,41 +1037,26 @@ cdef class ContinuousSet(NumberSet):
         :param other: the other NumberSet 
         :return: difference of those sets as RealSet
         """
-        if other.isempty():
-            return self.copy()
         if isinstance(other, RealSet):
             return RealSet([self]).difference(other)
-        cdef NumberSet result
-        if other.contains_interval(self):
-            return ContinuousSet.c_emptyset()
-
-        elif self.contains_interval(other, proper_containment=True):
-            result = RealSet([
-                ContinuousSet(
-                    self.lower,
-                    other.lower,
-                    self.left,
-                    _INC if other.left == _EXC else _EXC
-                ),
-                ContinuousSet(
-                    other.upper,
-                    self.upper,
-                    _INC if other.right == _EXC else _EXC,
-                    self.right
-                )
-            ])
-            return result
-        elif self.intersects(other):
-            result = self.copy()
-            if self.contains_value(other.uppermost()) and self.uppermost() != other.uppermost():
-                result.lower = other.upper
-                result.left = _INC if other.right == _EXC else _EXC
-            elif self.contains_value(other.lowermost()) and self.lowermost() != other.lowermost():
-                result.upper = other.lower
-                result.right = _INC if other.left == _EXC else _EXC
-            return result
-        else:
+        if not self.intersects(other):
             return self.copy()
+        # what remains of this set to the left and to the right of ``other``
+        remainder = []
+        if self.lower < other.lower or self.lower == other.lower and self.left == _INC and other.left == _EXC:
+            remainder.append(
+                ContinuousSet(self.lower, other.lower, self.left, _INC if other.left == _EXC else _EXC)
+            )
+        if self.upper > other.upper or self.upper == other.upper and self.right == _INC and other.right == _EXC:
+            remainder.append(
+                ContinuousSet(other.upper, self.upper, _INC if other.right == _EXC else _EXC, self.right)
+            )
+        remainder = [i for i in remainder if not i.isempty()]
+        if not remainder:
+            return ContinuousSet.c_emptyset()
+        if len(remainder) == 1:
+            return remainder[0]
+        return RealSet(remainder)
 
     cpdef inline NumberSet complement(ContinuousSet self):
         """
-- 
2.43.0


From a68d65961b42e4bdd2b58a5e2d99f3297d8f2b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/96] fix: RealSet.simplify merged unordered pieces and
 modified its operand

---
 src/jpt/base/intervals.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 7db02af..826c25b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -478,14 +478,15 @@ cdef class RealSet(NumberSet):
                     tail.extend(diff.intervals)
         if not intervals:
             return EMPTY
-        head, tail = first(chop(sorted(intervals, key=attrgetter('upper'))))
-        intervals = [head]
+        # the intervals are disjoint and non-empty, so their lower ends determine their order
+        head, tail = first(chop(sorted(intervals, key=attrgetter('lower', 'left'))))
+        intervals = [head.copy()]
         for subset in tail:
             if intervals[-1].contiguous(subset):
                 intervals[-1].upper = subset.upper
                 intervals[-1].right = subset.right
             else:
-                intervals.append(subset)
+                intervals.append(subset.copy())
         if len(intervals) == 1:
             return first(intervals)
         return RealSet(intervals)
-- 
2.43.0


From d00a55e965183424871cd54b8e9b43d8aa064289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 03/96] fix: RealSet.chop of a set that simplifies to one
 interval

---
 src/jpt/base/intervals.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 826c25b..502defb 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -529,7 +529,8 @@ cdef class RealSet(NumberSet):
         return RealSet([R]).difference(self).simplify()
 
     def chop(self, points: Iterable[float]) -> Iterable[ContinuousSet]:
-        for i in self.simplify().intervals:
+        simplified = self.simplify()
+        for i in simplified.intervals if isinstance(simplified, RealSet) else [simplified]:
             yield from i.chop(points)
 
     cpdef inline RealSet xmirror(self):
-- 
2.43.0


From 375633d7c3e276d80d011313e617ab9570c6e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 04/96] fix: an empty interval does not intersect anything

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 502defb..415d261 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -927,7 +927,7 @@ cdef class ContinuousSet(NumberSet):
         :returns True if the two intervals intersect, False otherwise
         :rtype: bool
         """
-        if other.isempty():
+        if self.isempty() or other.isempty():
             return False
         if isinstance(other, RealSet):
             return other.intersects(self)
-- 
2.43.0


From cadfe55bb2d3aa30968f2001666e5058b25478ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 05/96] fix: RealSet.sample with empty constituents

---
 src/jpt/base/intervals.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 415d261..bde2e8f 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -274,8 +274,8 @@ cdef class RealSet(NumberSet):
         if self.isempty():
             raise IndexError('Cannot sample from an empty set.')
         cdef ContinuousSet i_
-        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower)
-                                              for i_ in self.intervals if i_.size()], dtype=np.float64)
+        intervals = [i_ for i_ in self.intervals if i_.size()]
+        cdef DTYPE_t[::1] weights = np.array([abs(i_.upper - i_.lower) for i_ in intervals], dtype=np.float64)
         if sum(weights) == 0:
             weights[...] = 1.
         cdef DTYPE_t[::1] upperbounds = np.cumsum(weights)
@@ -287,7 +287,7 @@ cdef class RealSet(NumberSet):
             resval = np.random.uniform(0, min([np.finfo(np.float64).max, upperbounds[-1]]))
             for j, bound in enumerate(upperbounds):
                 if resval <= bound:
-                    self.intervals[j].sample(result=result[i:i+1])
+                    intervals[j].sample(result=result[i:i+1])
                     break
         return result
 
-- 
2.43.0


From cd87876f60ba61af867007fd5a52a756138c7137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 06/96] fix: union and intersection of an interval with a real
 set

---
 src/jpt/base/intervals.pxd | 2 +-
 src/jpt/base/intervals.pyx | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pxd b/src/jpt/base/intervals.pxd
index f924323..a4bc44a 100644
--- a/src/jpt/base/intervals.pxd
+++ b/src/jpt/base/intervals.pxd
@@ -112,7 +112,7 @@ cdef class ContinuousSet(NumberSet):
 
     cpdef inline ContinuousSet intersection(ContinuousSet self, ContinuousSet other, int left=*, int right=*)
 
-    cpdef inline NumberSet union(ContinuousSet self, ContinuousSet other)
+    cpdef inline NumberSet union(ContinuousSet self, NumberSet other)
 
     cpdef inline NumberSet difference(ContinuousSet self, NumberSet other)
 
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index bde2e8f..bb24ed1 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -1017,12 +1017,14 @@ cdef class ContinuousSet(NumberSet):
             result.right = _INC
         return result
 
-    cpdef inline NumberSet union(ContinuousSet self, ContinuousSet other):
+    cpdef inline NumberSet union(ContinuousSet self, NumberSet other):
         """
         Compute the union of this ``ContinuousSet`` and ``other``.
-        :param other: The other ContinuousSet 
+        :param other: The other set
         :return: The union of both sets as ContinuousSet if the union is contiguous or RealSet if it is not.
         """
+        if isinstance(other, RealSet):
+            return RealSet([self]).union(other)
         if not self.intersects(other) and not self.contiguous(other):
             if self.isempty():
                 return other.copy()
@@ -1230,6 +1232,8 @@ cdef class ContinuousSet(NumberSet):
         return self.union(other)
 
     def __and__(self, other: NumberSet) -> NumberSet:
+        if isinstance(other, RealSet):
+            return other.intersection(self)
         return self.intersection(other)
 
     def __sub__(self, other: NumberSet) -> NumberSet:
-- 
2.43.0


From 9ee6a8118a2392e63f64a34ffafa3b893b4d519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 07/96] fix: piecewise minimum/maximum on unbounded segments

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 370a61c..0b4cf28 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1574,7 +1574,10 @@ cdef class PiecewiseFunction(Function):
         plf = PiecewiseFunction()
         while queue:
             i = queue.popleft()
-            i_center = (i.min + i.max) * .5
+            if i.isninf() or i.ispinf():  # the functions do not cross inside of i (see below)
+                i_center = 0 if i.isninf() and i.ispinf() else (i.max - 1 if np.isinf(i.lower) else i.min + 1)
+            else:
+                i_center = (i.min + i.max) * .5
             l1 = f1.at(i_center)
             l2 = f2.at(i_center)
             if (not isinstance(l1, (LinearFunction, ConstantFunction)) or
-- 
2.43.0


From 0a301114f8c71c75c72843ff52d1df53430d156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 08/96] fix: evaluating a piecewise function outside of its
 domain

---
 src/jpt/base/functions.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 0b4cf28..73a86cf 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1027,7 +1027,10 @@ cdef class PiecewiseFunction(Function):
         return plf
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
-        return self.at(x).eval(x)
+        cdef Function f = self.at(x)
+        if f is None:  # not defined at x
+            return np.nan
+        return f.eval(x)
 
     def __call__(self, x: float or np.ndarray):
         if isinstance(x, numbers.Real):
-- 
2.43.0


From d775d9f0423e5752da3af90d6e339dd307d278c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 09/96] fix: subtraction of linear functions

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 73a86cf..bcd2280 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -588,13 +588,13 @@ cdef class LinearFunction(Function):
                             'and %s' % (type(f).__name__, type(self).__name__))
 
     def __sub__(self, x):
-        return -x + self
+        return self + x * -1
 
     def __radd__(self, x):
         return self + x
 
     def __rsub__(self, x):
-        return self - x
+        return self * -1 + x
 
     def __rmul__(self, o):
         return self * o
-- 
2.43.0


From a349e9a4c7f762d106e100b4332e2ab7a6f0f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 10/96] fix: linear functions combined with quadratic and
 undefined ones

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index bcd2280..93757af 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -572,6 +572,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m * f.value, self.c * f.value)
         elif isinstance(f, LinearFunction):
             return QuadraticFunction(self.m * f.m, self.m * f.c + f.m * self.c, self.c * f.c).simplify()
+        elif isinstance(f, Undefined):
+            return f.mul(self)
         else:
             raise TypeError('No operator "*" defined for objects of '
                             'types %s and %s' % (type(self).__name__, type(f).__name__))
@@ -583,6 +585,8 @@ cdef class LinearFunction(Function):
             return LinearFunction(self.m, self.c + f)
         elif isinstance(f, ConstantFunction):
             return LinearFunction(self.m, self.c + f.value)
+        elif isinstance(f, (QuadraticFunction, Undefined)):
+            return f.add(self)
         else:
             raise TypeError('Operator "+" undefined for types %s '
                             'and %s' % (type(f).__name__, type(self).__name__))
-- 
2.43.0


From 160c88c3923908ca15d8c51c8fc228d6dc024601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 11/96] fix: comparing Undefined with a linear function

---
 src/jpt/base/functions.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 93757af..4714bc1 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -176,7 +176,7 @@ cdef class Undefined(Function):
             return True
         elif isinstance(other, ConstantFunction) and np.isnan(other.value):
             return True
-        elif isinstance(other, LinearFunction) and any(np.isnan(other.m), np.isnan(other.c)):
+        elif isinstance(other, LinearFunction) and any((np.isnan(other.m), np.isnan(other.c))):
             return True
         return False
 
-- 
2.43.0


From 6f384ea29c3678008e66780944b97c42abe7b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 12/96] fix: numbers as left operands of functions

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 4714bc1..7515cd1 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -93,6 +93,8 @@ cdef class Function:
         raise NotImplementedError()
 
     def __add__(self, other):
+        if not isinstance(self, Function):  # reflected operands
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.add(
                 ConstantFunction(other)
@@ -108,6 +110,8 @@ cdef class Function:
             )
 
     def __mul__(self, other: Union[float, Function]) -> 'Function':
+        if not isinstance(self, Function):  # reflected operands
+            self, other = other, self
         if isinstance(other, numbers.Real):
             return self.mul(
                 ConstantFunction(other)
-- 
2.43.0


From b596c85c0e255ed9d880ba1e7e6c8757ea9159ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 13/96] fix: deleting from a Heap destroyed its order

---
 src/jpt/base/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 2a50a74..c316520 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -507,6 +507,7 @@ class Heap:
 
     def __delitem__(self, item: int):
         del self._data[item]
+        heapq.heapify(self._data)
 
     def __bool__(self):
         return bool(self._data)
-- 
2.43.0


From a49666d6cf59e501d6de5786eebb28ff3ee4dec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 14/96] fix: PLF approximation removed the wrong one of equal
 segments

---
 src/jpt/base/functions.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 7515cd1..03df5fe 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -2016,10 +2016,10 @@ class PLFApproximator:
                 break
 
             # Remove the left and right segments of the replacement from the original function
-            del result.intervals[result.intervals.index(replacement.left.i)]
-            del result.functions[result.functions.index(replacement.left.f)]
-            del result.intervals[result.intervals.index(replacement.right.i)]
-            del result.functions[result.functions.index(replacement.right.f)]
+            for segment in (replacement.left, replacement.right):
+                idx = result.intervals.index(segment.i)
+                del result.intervals[idx]
+                del result.functions[idx]
 
             # Insert the new segment at the interval union of the former left and right segments
             result = result.overwrite_at(
-- 
2.43.0


From 976641c0c7871e98c4e429a0826e18b1c4e3a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 15/96] fix: simplifying a piecewise function modified the
 original

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 03df5fe..c9fca6d 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1560,14 +1560,14 @@ cdef class PiecewiseFunction(Function):
             if i.isempty():
                 continue
             if not plf.functions:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
                 continue
             i_, f_ = plf[-1]
             if i.contiguous(i_) and f == f_:
                 i_.upper = i.upper
                 i_.right = i.right
             else:
-                plf.append(i, f)
+                plf.append(i.copy(), f.copy())
         return plf
 
     @staticmethod
-- 
2.43.0


From 7e056c75afa7bbd5ab32d9a7f45673a89cfc33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 16/96] fix: level sets of piecewise functions

---
 src/jpt/base/functions.pyx | 74 +++++++++++++-------------------------
 1 file changed, 24 insertions(+), 50 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index c9fca6d..9aea0c4 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1386,7 +1386,7 @@ cdef class PiecewiseFunction(Function):
         prev_f = None
         for i, f in zip(self.intervals, self.functions):
             x = f.intersection(y_)
-            if x and x in i:
+            if x and x.intersects(i):
                 result_set.intervals.append(i.intersection(x))
             elif prev_f and (prev_f(i.lower) < y < f(i.lower) or prev_f(i.lower) > y > f(i.lower)):
                 result_set.intervals.append(ContinuousSet(i.lower, i.lower))
@@ -1394,58 +1394,32 @@ cdef class PiecewiseFunction(Function):
         return result_set
 
     cpdef RealSet lt(self, DTYPE_t y):
-        result_set = RealSet()
-        y_ = ConstantFunction(y)
-        prev_f = None
-        current = None
-        for i, f in zip(self.intervals, self.functions):
-            x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m > 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m < 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) < y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) >= y and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-            prev_f = f
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+        return self._where(y, -1)
 
     cpdef RealSet gt(self, DTYPE_t y):
+        return self._where(y, 1)
+
+    def _where(self, y: float, sign: int) -> RealSet:
+        """
+        The set of all points, at which this function is greater (``sign = 1``)
+        or less (``sign = -1``) than ``y``.
+        """
         result_set = RealSet()
-        y_ = ConstantFunction(y)
-        current = None
-        for i, f in zip(self.intervals, self.functions):
-            x = f.intersection(y_)
-            if x.size() == 1 and x.lower in i:
-                if f.m < 0:
-                    if current is None:
-                        result_set.intervals.append(ContinuousSet(np.NINF, x.upper, 2, 2))
-                    else:
-                        current.upper = x.upper
-                        result_set.intervals.append(current)
-                        current = None
-                elif f.m > 0:
-                    current = ContinuousSet(x.lower, np.PINF, 2, 2)
-            elif not x and f(i.lower) > y and current is None:
-                current = ContinuousSet(i.lower, np.PINF, 1, 2)
-            elif (not x and f(i.lower) < y or x == R and f(i.lower) == y) and current is not None:
-                current.upper = i.lower
-                result_set.intervals.append(current)
-                current = None
-        if current is not None:
-            result_set.intervals.append(current)
-        return result_set
+        for i, f in self.iter():
+            if isinstance(f, Undefined):
+                continue
+            x = f.intersection(ConstantFunction(y))
+            if x.size() == 1:
+                part = i.intersection(
+                    ContinuousSet(x.upper, np.PINF, EXC, EXC) if f.m * sign > 0
+                    else ContinuousSet(np.NINF, x.lower, EXC, EXC)
+                )
+            else:
+                part = i.copy() if (f.c - y) * sign > 0 else EMPTY.copy()
+            if part:
+                result_set.intervals.append(part)
+        result = result_set.simplify()
+        return result if isinstance(result, RealSet) else RealSet([result] if result else [])
 
     @staticmethod
     def merge(f1: PiecewiseFunction, f2: PiecewiseFunction, mergepoint: float) -> PiecewiseFunction:
-- 
2.43.0


From 3302e6d75533bec4ca524b99ac93621e23b927b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 17/96] fix: stretching quadratic pieces

---
 src/jpt/base/functions.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9aea0c4..79c4cf1 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -1277,6 +1277,10 @@ cdef class PiecewiseFunction(Function):
             elif isinstance(f, LinearFunction):
                 f.c *= alpha
                 f.m *= alpha
+            elif isinstance(f, QuadraticFunction):
+                f.a *= alpha
+                f.b *= alpha
+                f.c *= alpha
         return plf
 
     cpdef str pfmt(self):
-- 
2.43.0


From 4a528ae7ea7297ea7cea06ca221fe88f0afc4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:16 +0000
Subject: [PATCH 18/96] fix: mirroring undefined pieces

---
 src/jpt/base/functions.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 79c4cf1..9134079 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -199,6 +199,9 @@ cdef class Undefined(Function):
     cpdef Function xshift(self, DTYPE_t delta):
         return Undefined()
 
+    cpdef Function xmirror(self):
+        return self.copy()
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From e27a99d898affdbd58f9cee5789d6df1e966fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 19/96] fix: CDF regression ignored points when dropping the
 last knots

---
 src/jpt/distributions/quantile/cdfreg.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/quantile/cdfreg.pyx b/src/jpt/distributions/quantile/cdfreg.pyx
index b461e30..ce1dad4 100644
--- a/src/jpt/distributions/quantile/cdfreg.pyx
+++ b/src/jpt/distributions/quantile/cdfreg.pyx
@@ -155,7 +155,7 @@ cdef class CDFRegressor:
         self._points.pop()
 
         cdef:
-            SIZE_t pos = self._points.top(), start
+            SIZE_t pos = self.points.front(), start
             DTYPE_t lx, ly, rx, ry, m, c, err
             int keep_p
 
-- 
2.43.0


From 11bd5a4452c8f90e59f2339fb049694e30570943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 20/96] fix: quantile function of CDFs with small slopes or
 initial jumps

---
 src/jpt/base/functions.pyx                   | 2 +-
 src/jpt/distributions/quantile/quantiles.pyx | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 9134079..520f6e8 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -679,7 +679,7 @@ cdef class LinearFunction(Function):
         Checks if this function can be inverted.
         :return: True if it is possible, False if not
         """
-        return abs(self.m) >= 1e-4
+        return self.m != 0
 
     cpdef Function fit(self, DTYPE_t[::1] x, DTYPE_t[::1] y) except +:
         """
diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index da44c3c..1c52e29 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -396,8 +396,12 @@ cdef class QuantileDistribution:
             for interval, f in zip(self._cdf.intervals, self._cdf.functions):
 
                 if f.is_invertible():
+                    y = f(interval.lower)
+                    if y > y_cdf + 1e-9:  # the CDF jumps at the beginning of this segment
+                        ppf.functions.append(ConstantFunction(interval.lower))
+                        ppf.intervals[-1].upper = y
+                        ppf.intervals.append(ContinuousSet(y, np.PINF, INC, EXC))
                     ppf.functions.append(f.invert())
-                    const = 0
                 elif not f.c:
                     ppf.functions.append(Undefined())
                 elif f(interval.lower) > y_cdf:
-- 
2.43.0


From 57a0f0007848ab40d1713906044c9f4deb79e254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 21/96] fix: hashes and equality of piecewise and quadratic
 functions

---
 src/jpt/base/functions.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 520f6e8..cbd823e 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -762,6 +762,9 @@ cdef class QuadraticFunction(Function):
     def __eq__(self, other):
         return isinstance(other, QuadraticFunction) and (self.a, self.b, self.c) == (other.a, other.b, other.c)
 
+    def __hash__(self):
+        return hash((QuadraticFunction, self.a, self.b, self.c))
+
     cpdef Function set(self, Function f):
         self.a = f.a
         self.b = f.b
@@ -931,7 +934,7 @@ cdef class PiecewiseFunction(Function):
         self.intervals: List[ContinuousSet] = []
 
     def __hash__(self):
-        return hash((PiecewiseFunction, ((i, f) for i, f in self.iter())))
+        return hash((PiecewiseFunction, tuple((i, f) for i, f in self.iter())))
 
     def append(self, interval: ContinuousSet, f: Function) -> None:
         self.intervals.append(interval)
@@ -947,6 +950,8 @@ cdef class PiecewiseFunction(Function):
                 'An object of type "PiecewiseFunction" '
                 'is required, but got "%s".' % type(other).__name__
             )
+        if len(self.intervals) != len(other.intervals):
+            return False
         for i1, f1, i2, f2 in zip(self.intervals, self.functions, other.intervals, other.functions):
             if i1 != i2 or f1 != f2:
                 return False
-- 
2.43.0


From 3b3b8da1d30c3bd4ac1b9815cb3a5c62ef274ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 22/96] fix: restricting a numeric distribution to real sets
 and single values

---
 src/jpt/distributions/univariate/numeric.py | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 25ca797..89b67a1 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -11,6 +11,7 @@ from dnutils import ifnone, ifnot, first
 from matplotlib import pyplot as plt
 
 from ..utils import Identity, DataScaler, DataScalerProxy
+from ...base.errors import Unsatisfiability
 from ...base.utils import save_plot, pairwise, normalized, none2nan
 from . import Distribution
 
@@ -373,16 +374,19 @@ class Numeric(Distribution):
 
         # for real sets the result is a merge of the single ContinuousSet crops
         if isinstance(restriction, RealSet):
-            distributions = []
-
-            for idx, continuous_set in enumerate(restriction.intervals):
-                distributions.append(
-                    self._crop(continuous_set)
+            intervals = restriction.copy().simplify()
+            intervals = [i for i in ifnot(getattr(intervals, 'intervals', None), [intervals]) if not i.isempty()]
+            weights = [self._p(i) for i in intervals]
+            if not any(weights):
+                # of single values without probability mass, only the densities can be compared
+                weights = [self.pdf.eval(i.lower) if i.size() == 1 else 0 for i in intervals]
+            if not any(weights):
+                raise Unsatisfiability(
+                    'Distribution has zero probability in %s' % restriction
                 )
-
             return self.merge(
-                distributions,
-                [1 / len(distributions)] * len(distributions)
+                [self._crop(i) for i, w in zip(intervals, weights) if w],
+                normalized([w for w in weights if w])
             )
 
         elif isinstance(restriction, ContinuousSet):
@@ -394,7 +398,7 @@ class Numeric(Distribution):
                 )
 
         elif isinstance(restriction, numbers.Number):
-            return self.create_dirac_impulse(restriction)
+            return type(self)(**self.settings).create_dirac_impulse(restriction)
 
         else:
             raise ValueError(
-- 
2.43.0


From 2efc306e96865b7c60345ef3218931cb2be8f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 23/96] fix: probability of intervals whose ends carry point
 masses

---
 src/jpt/distributions/univariate/numeric.py | 35 ++++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 89b67a1..db6a654 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -24,7 +24,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -269,22 +269,33 @@ class Numeric(Distribution):
         if not isinstance(value, (NumberSet, numbers.Number)):
             raise TypeError(
                 'Argument must be numbers.Number or '
-                'jpt.base.intervals.NumberSet (got %s).' % type(labels)
+                'jpt.base.intervals.NumberSet (got %s).' % type(value)
             )
         if isinstance(value, numbers.Number):
             value = ContinuousSet(value, value)
         elif isinstance(value, RealSet):
-            return sum(self._p(i) for i in value.intervals)
-        probspace = self.pdf.gt(0)
-        if probspace.isdisjoint(value):
+            value = value.copy().simplify()
+            if isinstance(value, RealSet):
+                return min(1., sum(self._p(i) for i in value.intervals))
+        if value.isempty():
             return 0
-        probmass = (
-                (self.cdf.eval(value.upper) if value.upper != np.PINF else 1.) -
-                (self.cdf.eval(value.lower) if value.lower != np.NINF else 0.)
-        )
-        if not probmass:
-            return probspace in value
-        return probmass
+        upper = self._cdf_limits(value.upper)[1 if value.right == INC else 0] if value.upper != np.PINF else 1.
+        lower = self._cdf_limits(value.lower)[0 if value.left == INC else 1] if value.lower != np.NINF else 0.
+        return min(max(upper - lower, 0.), 1.)
+
+    def _cdf_limits(self, value: numbers.Real) -> Tuple[numbers.Real, numbers.Real]:
+        '''
+        Both the limit of the CDF when approaching ``value`` from the left, and its value at ``value``. They
+        differ if there is a probability mass concentrated at ``value``.
+        '''
+        cdf = self.cdf
+        idx = cdf.idx_at(value)
+        y = cdf.functions[idx].eval(value)
+        if idx > 0 and cdf.intervals[idx].lower == value:
+            left = cdf.functions[idx - 1].eval(value)
+            if y - left > 1e-9:
+                return left, y
+        return y, y
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
         return self._p(self.label2value(labels))
-- 
2.43.0


From 5775496d3465530d4d9d6c681f9795f28df0d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 24/96] fix: merging numeric distributions lost jumps of their
 CDFs

---
 src/jpt/distributions/quantile/quantiles.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 1c52e29..fa9753a 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -467,11 +467,14 @@ cdef class QuantileDistribution:
             )
 
         # --------------------------------------------------------------------------------------------------------------
-        # We preprocess the CDFs that are in the form of "jump" functions
+        # We preprocess the discontinuities of the CDFs, including those that are "jump" functions as a whole
         jumps = {}
-        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions) if len(d.cdf) == 2]:
-            jumps[cdf.intervals[0].upper] = jumps.get(cdf.intervals[0].upper, Jump(cdf.intervals[0].upper, 1, 0))
-            jumps.get(cdf.intervals[0].upper).weight += w
+        for w, cdf in [(w, d.cdf) for w, d in zip(weights, distributions)]:
+            for f, (i, g) in zip(cdf.functions, zip(cdf.intervals[1:], cdf.functions[1:])):
+                height = g.eval(i.lower) - f.eval(i.lower)
+                if height > 1e-9:
+                    jumps[i.lower] = jumps.get(i.lower, Jump(i.lower, 1, 0))
+                    jumps.get(i.lower).weight += w * height
 
         # --------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From 587c3d4626583b5679c019ffa8b6a1d8190230b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:35 +0000
Subject: [PATCH 25/96] fix: restricting quantile distributions with jumps or
 to intervals without mass

---
 src/jpt/distributions/quantile/quantiles.pyx | 24 ++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index fa9753a..0a7ab01 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -271,7 +271,14 @@ cdef class QuantileDistribution:
         cdf_ = self.cdf.crop(interval)
 
         # II: add constant to move to
-        cdf_ += -cdf_.eval(cdf_.intervals[0].lowermost())
+        offset = cdf_.eval(cdf_.intervals[0].lowermost())
+        idx = self._cdf.idx_at(interval.lower)
+        if interval.left == INC and idx > 0 and self._cdf.intervals[idx].lower == interval.lower:
+            # a jump at an inclusive lower bound belongs to the restriction
+            y = self._cdf.functions[idx - 1].eval(interval.lower)
+            if offset - y > 1e-9:
+                offset = y
+        cdf_ += -offset
 
         # everything left of the leftmost point of the cropped function evaluates to 0
         cdf = PiecewiseFunction()
@@ -281,13 +288,21 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
-        f_ = cdf_.functions[0]
+        if alpha <= 0:
+            if interval.size() > 1 or not self.pdf.eval(interval.lowermost()) > 0:
+                raise Unsatisfiability(
+                    'CDF has zero Probability in %s' % interval
+                )
+            # a single value of the support has no probability mass of its own, but a density
+            alpha = 1
+
+        f_ = ConstantFunction(0.)
         for i, f in zip(cdf_.intervals, cdf_.functions):
             if f == ConstantFunction(0.):
                 cdf.intervals[-1].upper = i.upper
                 continue
             y = cdf.functions[-1].eval(i.lower)
-            c = (f.eval(i.lower) - f_.eval(i.lower)) * alpha  # If the function is continuous (no jump), c = 0
+            c = (f.eval(i.lower) - f_.eval(i.lower)) / alpha  # If the function is continuous (no jump), c = 0
             f_ = f
             cdf.intervals.append(ContinuousSet(i.lower, i.upper, INC, EXC))
             upper_ = np.nextafter(i.upper, i.upper - 1)
@@ -298,7 +313,8 @@ cdef class QuantileDistribution:
                 cdf.intervals[-1].lower = cdf.intervals[-2].upper
                 cdf.functions.append(LinearFunction.from_points((i.lower, y + c),
                                                                 (upper_, (f.m / alpha) * (upper_ - i.lower) + y + c)))
-        if cdf.functions[-1] == ConstantFunction(1.):
+        if isinstance(cdf.functions[-1], ConstantFunction) and abs(cdf.functions[-1].value - 1) < 1e-9:
+            cdf.functions[-1] = ConstantFunction(1.)
             cdf.intervals[-1].upper = np.PINF
             cdf.intervals[-1].right = EXC
             if len(cdf.intervals) > 1:
-- 
2.43.0


From 4eb8a4aee228fb02fa8e26d96f5aa606d57db550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 26/96] fix: value mappings of different lengths compared equal

---
 src/jpt/distributions/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index af41384..ba7a423 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -204,6 +204,8 @@ class OrderedDictProxy:
     def __eq__(self, other):
         if not isinstance(other, OrderedDictProxy):
             return False
+        if len(self._dict) != len(other._dict):
+            return False
         for self_, other_ in zip(self._dict.items(), other._dict.items()):
             if self_[0] != other_[0] or self_[1] != other_[1]:
                 return False
-- 
2.43.0


From 7dc8e0b7454f02ee1b93f59271e32272e03a5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 27/96] fix: moments of numeric distributions with point masses

---
 src/jpt/distributions/univariate/numeric.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index db6a654..9480fe1 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -568,14 +568,15 @@ class Numeric(Distribution):
                        the result is the central moment of the distribution.
         """
         value_transform = ifnone(value_transform, lambda _: _)
-        # We have to catch the special case in which the
-        # PDF is an impulse function
-        if self.is_dirac_impulse():
-            if order == 1:
-                return self.pdf.gt(0).min
-            elif order >= 2:
-                return 0
         result = 0
+        pieces = list(self.cdf.iter())
+        for (_, previous), (interval, function) in zip(pieces[:-1], pieces[1:]):
+            # probability mass that is concentrated in single points
+            mass = function.eval(interval.lower) - previous.eval(interval.lower)
+            if mass > 1e-9:
+                result += pow(value_transform(interval.lower) - center, order) * mass
+        if self.is_dirac_impulse():
+            return result
         for interval, function in zip(self.pdf.intervals[1:-1], self.pdf.functions[1:-1]):
             interval_ = value_transform(interval)
             if interval_.width == 0:
-- 
2.43.0


From 6d883124770f70aef927e504fd0e7fec838a4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 28/96] fix: k most probable explanations of numeric
 distributions contained duplicates

---
 src/jpt/distributions/univariate/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 9480fe1..683c2d8 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -209,7 +209,7 @@ class Numeric(Distribution):
         """
         likelihoods = [f.value for f in self.pdf.functions if f.value and not np.isnan(f.value)]
         sorted_likelihood = sorted(
-            likelihoods,
+            set(likelihoods),
             reverse=True
         )[:ifnone(k, len(likelihoods))]
 
-- 
2.43.0


From 2e51a7e5d7c9f4b61e1f0fdef31911f5f785e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 29/96] fix: restricting a symbolic distribution to an
 impossible value

---
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 5830481..298555f 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -370,7 +370,7 @@ class Multinomial(Distribution):
             restriction: Union[int, Collection[int]],
     ) -> 'Multinomial':
         if not isinstance(restriction, Collections):
-            return self.create_dirac_impulse(restriction)
+            restriction = {restriction}
 
         result = self.copy()
         for idx, value in enumerate(result.values.values()):
-- 
2.43.0


From 7251a51e667696d9e470d3e9afbff06dde78f8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 30/96] fix: sampling from quantile distributions with jumps

---
 src/jpt/distributions/quantile/quantiles.pyx | 35 +++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 0a7ab01..b3c5853 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -588,23 +588,34 @@ cdef class QuantileDistribution:
         if len(self.cdf.intervals) == 2:
             return np.full(n, self.cdf.intervals[0].upper)
 
-        # create probability distribution with the probabilities of each function part
-        interval_probabilities = np.array([function.eval(interval.upper) - function.eval(interval.lower)
-                                           for function, interval in
-                                           zip(self.cdf.functions[1:-1], self.cdf.intervals[1:-1])])
-
-        # sample in which function part the samples will be
-        sample_intervals = np.random.choice(list(range(0, len(interval_probabilities))), size=(n,),
-                                            p=interval_probabilities)
+        # the sources of the samples are the function parts and the points where the CDF jumps
+        sources, probabilities = [], []
+        pieces = list(self.cdf.iter())
+        for (_, previous), (interval, function) in zip(pieces[:-1], pieces[1:]):
+            jump = function.eval(interval.lower) - previous.eval(interval.lower)
+            if jump > 1e-9:
+                sources.append(ContinuousSet(interval.lower, interval.lower))
+                probabilities.append(jump)
+            if not np.isinf(interval.upper):
+                sources.append(interval)
+                probabilities.append(max(0, function.eval(interval.upper) - function.eval(interval.lower)))
+
+        # sample in which source the samples will be
+        probabilities = np.array(probabilities)
+        sample_sources = np.random.choice(
+            list(range(0, len(sources))),
+            size=(n,),
+            p=probabilities / probabilities.sum()
+        )
 
         # initialize result
         result = np.zeros((n, ))
 
-        # for every interval
-        for idx, interval in enumerate(interval for interval in self.cdf.intervals[1:-1]):
+        # for every source
+        for idx, interval in enumerate(sources):
 
-            # get the indices where the samples are from this interval
-            indices = np.where(sample_intervals == idx)[0]
+            # get the indices where the samples are from this source
+            indices = np.where(sample_sources == idx)[0]
 
             # sample as many points as needed
             samples = interval.sample(len(indices))
-- 
2.43.0


From 060f2c25b88b0e63f0c2b9b6a49b4d316c2458b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 31/96] fix: quantile function of distributions with a jump to
 1

---
 src/jpt/distributions/quantile/quantiles.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index b3c5853..de82edd 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -414,9 +414,12 @@ cdef class QuantileDistribution:
                 if f.is_invertible():
                     y = f(interval.lower)
                     if y > y_cdf + 1e-9:  # the CDF jumps at the beginning of this segment
+                        y_cdf = y if y < 1 else one_plus_eps
                         ppf.functions.append(ConstantFunction(interval.lower))
-                        ppf.intervals[-1].upper = y
-                        ppf.intervals.append(ContinuousSet(y, np.PINF, INC, EXC))
+                        ppf.intervals[-1].upper = y_cdf
+                        ppf.intervals.append(ContinuousSet(y_cdf, np.PINF, INC, EXC))
+                        if y >= 1:
+                            continue
                     ppf.functions.append(f.invert())
                 elif not f.c:
                     ppf.functions.append(Undefined())
-- 
2.43.0


From 446e89c65dfe3e52d210b089fc1362832dfc0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 32/96] fix: roulette wheel sampling returned elements of
 weight zero

---
 src/jpt/base/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/sampling.py b/src/jpt/base/sampling.py
index 5838057..28edfd2 100644
--- a/src/jpt/base/sampling.py
+++ b/src/jpt/base/sampling.py
@@ -29,7 +29,7 @@ class RouletteWheelSampler:
         if not (0 <= x <= self._upperbounds[-1]):
             raise IndexError('Indexes in the roulette wheel must be in [0, %s] (got %s)' % (self._upperbounds[-1], x))
         for i, bound in enumerate(self._upperbounds):
-            if x <= bound:
+            if x <= bound and bound > 0:  # elements of weight zero must not be returned
                 return i
 
     def sample(self, n=1):
-- 
2.43.0


From 3469b41f4a858c6a95cb81c35eb73a7df4b03b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:23 +0000
Subject: [PATCH 33/96] fix: adding a constant to a numeric distribution

---
 src/jpt/distributions/univariate/numeric.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 683c2d8..c834f46 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -593,6 +593,12 @@ class Numeric(Distribution):
 
     def __add__(self, other: 'Numeric') -> 'Numeric':
         result = type(self)(**self.settings)
+        for impulse, summand in ((self, other), (other, self)):
+            if impulse.is_dirac_impulse():  # adding a constant
+                result._quantile = QuantileDistribution.from_cdf(
+                    summand.cdf.xshift(-impulse.cdf.intervals[0].upper)
+                )
+                return result
         result._quantile = QuantileDistribution.from_pdf(
             self.pdf.convolution(other.pdf).rectify().simplify()
         )
-- 
2.43.0


From 5a1d745b12efd60e7916ecfb5ee1cc55f065deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 34/96] fix: segmentation fault for splits with an impurity
 improvement of -1

---
 src/jpt/learning/impurity.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 6ea1a61..f985898 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -775,7 +775,7 @@ cdef class Impurity:
                 else: return False
         return True
 
-    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except -1:
+    cpdef DTYPE_t compute_best_split(self, SIZE_t start, SIZE_t end) except? -1:
         """
         Calculate the best split on all variables.
         
@@ -957,7 +957,7 @@ cdef class Impurity:
             DTYPE_t gini_total,
             SIZE_t[::1] index_buffer,
             SIZE_t* best_split_pos
-    ) nogil except -1:
+    ) nogil except? -1:
         """
         Evaluate a variable w. r. t. its possible slit. Calculate the best split on this variable
         and the corresponding impurity.
-- 
2.43.0


From ecddd71632c7d11dd4c967cc7eaa39ab10bb9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 35/96] fix: probability of queries that share variables with
 the evidence

Variables occurring in both the query and the evidence were counted as
independent. Impossible evidence raises Unsatisfiability as documented.
---
 src/jpt/trees.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 1bd8661..cdadbbc 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1064,28 +1064,33 @@ class JPT:
         p_e = 0.
 
         for leaf in self.apply(evidence_):
-            p_m = 1
+            p_m = leaf.prior
+            p_e_vars = {}
             for var in set(evidence_.keys()):
                 evidence_val = evidence_[var]
                 if var in leaf.path:  # var.numeric and
                     evidence_val = evidence_val.intersection(leaf.path[var])
-                p_m *= leaf.distributions[var]._p(evidence_val)
+                p_e_vars[var] = leaf.distributions[var]._p(evidence_val)
+                p_m *= p_e_vars[var]
 
-            w = leaf.prior
-            p_m *= w
             p_e += p_m
 
-            if leaf.applies(query_):
+            if p_m and leaf.applies(query_):
                 for var in set(query_.keys()):
                     query_val = query_[var]
                     if var in leaf.path:
                         query_val = query_val.intersection(leaf.path[var])
-                    p_m *= leaf.distributions[var]._p(query_val)
+                    if var in evidence_:  # the variable must satisfy both the query and the evidence
+                        if isinstance(query_val, ContinuousSet):
+                            query_val = RealSet([query_val])
+                        p_m *= leaf.distributions[var]._p(query_val.intersection(evidence_[var])) / p_e_vars[var]
+                    else:
+                        p_m *= leaf.distributions[var]._p(query_val)
                 p_q += p_m
 
         if p_e == 0:
             if fail_on_unsatisfiability:
-                raise ValueError(
+                raise Unsatisfiability(
                     'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
                 )
             else:
-- 
2.43.0


From 3966320947d98e742f5cd436bdc6ea9f8070eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 36/96] fix: sample counts of symbolic splits without symbolic
 targets

---
 src/jpt/learning/impurity.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index f985898..72cbba6 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -1134,13 +1134,15 @@ cdef class Impurity:
             # if this variable is symbolic
             if symbolic:
 
+                # every value is a split of its own
+                self.num_samples[...] = 0
+
                 # if symbolic targets exist
                 if self.has_symbolic_vars():
                     self.symbols_left[...] = 0
                     self.symbols_right[...] =  self.symbols_total[...]
 
                     self.gini_improvements[...] = 0
-                    self.num_samples[...] = 0
 
                 # if numeric targets exist
                 if self.has_numeric_vars(var_idx):
-- 
2.43.0


From f22c6ac1ec39375307369b7858a776b3bc89d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 37/96] fix: Gini impurity used domain sizes of symbolic
 variables that are no targets

---
 src/jpt/learning/impurity.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 72cbba6..30a5bf4 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -615,7 +615,7 @@ cdef class Impurity:
     def get_size_of_symbolic_variables_domain_from_tree(cls, tree):
         return np.array([
             v.domain.n_values
-            for v in tree.variables if v.symbolic
+            for v in tree.variables if v.symbolic and v in tree.targets
         ], dtype=np.int64)
 
     @classmethod
-- 
2.43.0


From 3312f7a31c952d0ddcdc5cec9b1a0ce5c9b5c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 38/96] fix: rounding errors in the variance of constant
 targets decided about splits

---
 src/jpt/learning/impurity.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 30a5bf4..26c225d 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -797,6 +797,8 @@ cdef class Impurity:
         # initialize best variable index
         cdef int best_var = -1
 
+        cdef SIZE_t i
+
         # take over parameters
         self.start = start
         self.end = end
@@ -832,6 +834,11 @@ cdef class Impurity:
                       n_samples,
                       result=self.variances_total)
 
+            # the variance of constants is 0, but the proxy may be off by a rounding error
+            for i in range(self.n_num_vars):
+                if self.col_is_constant(self.start, self.end, self.numeric_vars[i]) == 1:
+                    self.variances_total[i] = 0
+
             # sanity check to see if the variances "make sense"
             # if not self.check_max_variances(self.variances_total):
             #     return 0
-- 
2.43.0


From 0e046d42183a51ede47c4c741386a5a45946731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 39/96] fix: splits of features with restricted dependencies

Targets that do not depend on the split variable entered its impurity
improvement with statistics of an empty left side.
---
 src/jpt/learning/impurity.pyx | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/jpt/learning/impurity.pyx b/src/jpt/learning/impurity.pyx
index 26c225d..e935483 100644
--- a/src/jpt/learning/impurity.pyx
+++ b/src/jpt/learning/impurity.pyx
@@ -322,6 +322,7 @@ cdef class Impurity:
     cdef DTYPE_t[::1] variances_left, \
         variances_right, \
         variances_total, \
+        variances_dependent, \
         variance_improvements, \
         sums_left, \
         sums_right, \
@@ -511,6 +512,7 @@ cdef class Impurity:
             self.sums_total = np.ndarray(self.n_num_vars, dtype=np.float64)
             self.sq_sums_total = np.ndarray(self.n_num_vars, dtype=np.float64)
             self.variances_total = np.ndarray(self.n_num_vars, dtype=np.float64)
+            self.variances_dependent = np.ndarray(self.n_num_vars, dtype=np.float64)
 
             # calculate the prior variance of every variable
             self.max_variances = max_variances
@@ -745,6 +747,19 @@ cdef class Impurity:
             if self.invert_impurity[i]:
                 result[i] = 1 - result[i]
 
+    cdef inline DTYPE_t mean_of_dependent(Impurity self, DTYPE_t[::1] values, SIZE_t var_idx) nogil:
+        """
+        Mean of the values of those symbolic targets that depend on the variable ``var_idx``.
+        """
+        cdef SIZE_t i, n = 0
+        cdef DTYPE_t result = 0
+        for i in range(self.n_sym_vars):
+            if self.symbolic_dependency_matrix[var_idx, i] == -1:
+                break
+            result += values[self.symbolic_dependency_matrix[var_idx, i]]
+            n += 1
+        return result / <DTYPE_t> n if n else 0
+
     cpdef SIZE_t _col_is_constant(Impurity self, SIZE_t start, SIZE_t end, SIZE_t col):
         '''For testing only.'''
         return self.col_is_constant(start, end, col)
@@ -1047,6 +1062,18 @@ cdef class Impurity:
 
         cdef int subsequent_equal
 
+        # only targets that depend on the variable can be improved by splitting it
+        if self.has_numeric_vars(var_idx):
+            variances_total = self.variances_dependent
+            variances_total[...] = 0
+            for i in range(self.n_num_vars):
+                if self.numeric_dependency_matrix[var_idx, i] == -1:
+                    break
+                j = self.numeric_dependency_matrix[var_idx, i]
+                variances_total[j] = self.variances_total[j]
+        if self.has_symbolic_vars():
+            gini_total = self.mean_of_dependent(self.gini_impurities, var_idx)
+
         # for every split position as index
         for split_pos in range(n_samples):
 
@@ -1133,8 +1160,10 @@ cdef class Impurity:
                     self.gini_impurity(self.symbols_right, samples_right, self.gini_right)
                     impurity_improvement += (
                         (gini_total -
-                        mean(self.gini_left) * (<DTYPE_t> samples_left / <DTYPE_t> n_samples) -
-                        mean(self.gini_right) * (<DTYPE_t> samples_right / <DTYPE_t> n_samples)) / gini_total
+                        self.mean_of_dependent(self.gini_left, var_idx) *
+                        (<DTYPE_t> samples_left / <DTYPE_t> n_samples) -
+                        self.mean_of_dependent(self.gini_right, var_idx) *
+                        (<DTYPE_t> samples_right / <DTYPE_t> n_samples)) / gini_total
                         * (1 - self.w_numeric)
                     )
 
-- 
2.43.0


From ac9513e73f1e9d0fa17c3d0aa79ad60d2d93c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:30 +0000
Subject: [PATCH 40/96] fix: intervals without support had a probability due to
 rounding errors

---
 src/jpt/distributions/univariate/numeric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index c834f46..e649b07 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -295,6 +295,8 @@ class Numeric(Distribution):
             left = cdf.functions[idx - 1].eval(value)
             if y - left > 1e-9:
                 return left, y
+            if isinstance(cdf.functions[idx - 1], ConstantFunction):
+                return left, left  # where the CDF starts to rise, evaluating the slope suffers from rounding errors
         return y, y
 
     def p(self, labels: Union[numbers.Number, NumberSet]) -> numbers.Real:
-- 
2.43.0


From f95c9a9625e2a1b6ffa994132e166c329b6d7d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 41/96] fix: conditioning a conditional model again

---
 src/jpt/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index cdadbbc..b903426 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2215,6 +2215,7 @@ class JPT:
 
         # initialize exploration queue
         fringe = deque([conditional_jpt.root])
+        expanded = set()
 
         while fringe:
             # get the next node to inspect
@@ -2239,7 +2240,8 @@ class JPT:
                     rm = True
 
                 # else recurse into its children
-                elif len(node.children) == 2:
+                elif node.idx not in expanded:
+                    expanded.add(node.idx)
                     fringe.extendleft(node.children)
                     continue
 
-- 
2.43.0


From 6df68b72b352035645d14b19f7dabca8f80e2cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 42/96] fix: posterior of evidence variables that do not occur
 in the path of a leaf

Intervals that share a single value with a path are weighted by their
probability mass, not by a density.
---
 src/jpt/trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index b903426..6773f9b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1150,7 +1150,9 @@ class JPT:
                 if var in leaf.path:
                     evidence_set = evidence_set.intersection(leaf.path[var])
 
-                if isinstance(evidence_set, ContinuousSet) and evidence_set.size() == 1:
+                # only for single values, i.e. not for intervals that share a single value with the path,
+                # the density is compared
+                if isinstance(evidence_[var], ContinuousSet) and evidence_[var].size() == 1:
                     l_var = leaf.distributions[var].pdf(evidence_set.lower)
                     l_var = 1 if np.isinf(l_var) else l_var
                 else:
@@ -1176,7 +1178,7 @@ class JPT:
                 if evidence_set is not None:
                     if var in leaf.path:
                         evidence_set = evidence_set.intersection(leaf.path[var])
-                        distribution = distribution._crop(evidence_set)
+                    distribution = distribution._crop(evidence_set)
                 distributions[var].append(distribution)
 
         weights = [l * p for l, p in zip(likelihoods, priors)]
-- 
2.43.0


From 23fe5f838d0626d3bdd4cef5b70b801281a46086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 43/96] fix: probability of intervals bounded by adjacent
 floats

---
 src/jpt/distributions/univariate/numeric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e649b07..11268ff 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -24,7 +24,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet, INC
+    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -279,8 +279,8 @@ class Numeric(Distribution):
                 return min(1., sum(self._p(i) for i in value.intervals))
         if value.isempty():
             return 0
-        upper = self._cdf_limits(value.upper)[1 if value.right == INC else 0] if value.upper != np.PINF else 1.
-        lower = self._cdf_limits(value.lower)[0 if value.left == INC else 1] if value.lower != np.NINF else 0.
+        upper = self._cdf_limits(value.uppermost())[1] if value.upper != np.PINF else 1.
+        lower = self._cdf_limits(value.lowermost())[0] if value.lower != np.NINF else 0.
         return min(max(upper - lower, 0.), 1.)
 
     def _cdf_limits(self, value: numbers.Real) -> Tuple[numbers.Real, numbers.Real]:
-- 
2.43.0


From f6805cf26ded4852768ba4c464c1a055dd066c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:58 +0000
Subject: [PATCH 44/96] fix: merging and restricting quantile distributions
 with negligible mass

---
 src/jpt/distributions/quantile/quantiles.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index de82edd..1e38f76 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -288,6 +288,12 @@ cdef class QuantileDistribution:
         # III: stretch function to represent a proper quantile fn
         alpha = cdf_.functions[-1].eval(interval.uppermost())
 
+        if 0 < alpha <= 1e-12 and interval.size() > 1:
+            # the overlap with the support is too small to be resolved
+            for x in (max(interval.lowermost(), self._cdf.intervals[0].upper), interval.uppermost()):
+                if self.pdf.eval(x) > 0:
+                    return self.crop(ContinuousSet(x, x))
+
         if alpha <= 0:
             if interval.size() > 1 or not self.pdf.eval(interval.lowermost()) > 0:
                 raise Unsatisfiability(
@@ -569,6 +575,7 @@ cdef class QuantileDistribution:
         while len(functions) > 1 and abs(functions[-1].m) <= 1e-08 and functions[-1].m:
             del intervals[-1]
             del functions[-1]
+        intervals[-1].upper = np.PINF
 
         cdf = PiecewiseFunction()
         cdf.functions = functions
-- 
2.43.0


From 5c9a468987cbeb6b139a291b6390e713a0966f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 45/96] fix: non-empty intervals became empty in label space

---
 src/jpt/distributions/univariate/numeric.py | 22 ++++++++++-----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 11268ff..00a5cd9 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -83,12 +83,11 @@ class Numeric(Distribution):
             value: Union[float, NumberSet]
     ) -> Union[float, NumberSet]:
         if isinstance(value, ContinuousSet):
-            return ContinuousSet(
-                cls.labels[value.lower],
-                cls.labels[value.upper],
-                value.left,
-                value.right
-            )
+            lower, upper = cls.labels[value.lower], cls.labels[value.upper]
+            if lower == upper and not value.isempty():
+                # the bounds coincide after the transformation
+                return ContinuousSet(lower, upper)
+            return ContinuousSet(lower, upper, value.left, value.right)
         elif isinstance(value, RealSet):
             return RealSet([cls.value2label(i) for i in value.intervals])
         elif isinstance(value, numbers.Real):
@@ -105,12 +104,11 @@ class Numeric(Distribution):
             label: Union[numbers.Real, NumberSet]
     ) -> Union[numbers.Real, NumberSet]:
         if isinstance(label, ContinuousSet):
-            return ContinuousSet(
-                cls.values[label.lower],
-                cls.values[label.upper],
-                label.left,
-                label.right
-            )
+            lower, upper = cls.values[label.lower], cls.values[label.upper]
+            if lower == upper and not label.isempty():
+                # the bounds coincide after the transformation
+                return ContinuousSet(lower, upper)
+            return ContinuousSet(lower, upper, label.left, label.right)
         elif isinstance(label, RealSet):
             return RealSet(
                 [cls.label2value(i) for i in label.intervals]
-- 
2.43.0


From 29eb8e6c048c09faf092de409bd77f525dde1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 46/96] fix: deep copies of variable maps lost values

---
 src/jpt/variables.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 875b3b4..1064529 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -6,6 +6,7 @@ import math
 import numbers
 import uuid
 
+from copy import deepcopy
 from typing import List, Tuple, Any, Union, Dict, Iterator, Set, Iterable, Type, Optional
 import collections.abc
 
@@ -691,8 +692,10 @@ class VariableMap:
         for vname, value in self.items():
             if isinstance(value, (numbers.Number, str)):
                 vmap[vname] = value
-            elif isinstance(value, (set, list, tuple, NumberSet)):
+            elif isinstance(value, (set, NumberSet)):
                 vmap[vname] = value.copy()
+            else:
+                vmap[vname] = deepcopy(value)
         return vmap
 
     @classmethod
-- 
2.43.0


From 8d871aa29698a9f491056132b24686b220572979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:26 +0000
Subject: [PATCH 47/96] fix: k-best explanations of models ignored priors, ties
 and point masses

---
 src/jpt/inference/mpe.py | 19 ++++++++++---------
 src/jpt/trees.py         | 35 +++++++++++++++++++----------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/jpt/inference/mpe.py b/src/jpt/inference/mpe.py
index bb851de..d67984b 100644
--- a/src/jpt/inference/mpe.py
+++ b/src/jpt/inference/mpe.py
@@ -1,7 +1,7 @@
 from collections import OrderedDict, deque
 from math import prod
 from operator import itemgetter, attrgetter
-from typing import Any, Iterator, List
+from typing import Any, Dict, Iterator, List
 
 import numpy as np
 from dnutils import first, ifnone, project
@@ -109,8 +109,11 @@ class MPESolver:
     def __init__(
             self,
             distributions: VariableMap,
-            likelihood_divisor: float = None
+            likelihood_divisor: float = None,
+            dirac_likelihoods: Dict[Variable, float] = None
     ):
+        dirac_likelihoods = ifnone(dirac_likelihoods, {})
+
         # save the distributions
         self.distributions: VariableMap = distributions.copy()
 
@@ -124,12 +127,12 @@ class MPESolver:
         for var, dist in self.distributions.items():
             k_mpe = list(dist._k_mpe())
             self.domains[var] = {
-                frozenset(k) if isinstance(k, set) else k: v for k, v in k_mpe
+                frozenset(k) if isinstance(k, set) else k: dirac_likelihoods.get(var, 1.) if np.isposinf(v) else v
+                for k, v in k_mpe
             }
 
             if isinstance(dist, Numeric):
-                _, likelihood_max = dist._mpe()
-                likelihoods.append(likelihood_max)
+                likelihoods.extend(self.domains[var].values())
 
         # Build the unary constraints given by the log of
         # an events probability
@@ -145,9 +148,7 @@ class MPESolver:
                         (
                             frozenset(val) if not isinstance(dist, Numeric) else val,
                             -np.log(
-                                (dist.pdf / likelihood_divisor).eval(val.any_point())
-                                if isinstance(dist, Numeric)
-                                else dist._p(val)
+                                self.domains[var][val] / (likelihood_divisor if isinstance(dist, Numeric) else 1)
                             )
                         )
                         for val in self.domains[var]],
@@ -177,7 +178,7 @@ class MPESolver:
 
     def likelihood(self, solution: BnBSolution):
         return prod([
-            self.domains[var][val] for var, val in solution.state.assignment.items()
+            domain[solution.state.assignment[var]] for var, domain in self.domains.items()
         ])
 
     def is_goal_state(self, state: MPEState) -> bool:
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 6773f9b..bea877d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -650,7 +650,7 @@ class Leaf(Node):
             explanation, likelihood = distribution.mpe()
 
             # apply upper cap for infinities
-            likelihood = minimal_distances[variable] if likelihood == float("inf") else likelihood
+            likelihood = 2. / minimal_distances[variable] if likelihood == float("inf") else likelihood
 
             # update likelihood
             result_likelihood *= likelihood
@@ -1317,6 +1317,10 @@ class JPT:
         :param k: the number of solutions to return
         :return: An iterator with states ordered by likelihood.
         """
+        if evidence is None:
+            evidence = {}
+        if isinstance(evidence, dict):
+            evidence = self.bind(evidence)
         if isinstance(evidence, LabelAssignment):
             evidence_ = evidence.value_assignment()
         else:
@@ -1336,21 +1340,21 @@ class JPT:
                     if not np.isnan(likelihood_max) and not np.isinf(likelihood_max):
                         likelihoods.append(likelihood_max)
         likelihood_max = ifnot(likelihoods, 1, max)
-        mpe_solvers = [
-            MPESolver(
+        dirac_likelihoods = {v: 2. / d for v, d in self.minimal_distances.items()}
+        mpe_candidates = Heap(key=lambda candidate: -candidate[1])
+        for leaf in conditional_jpt.leaves.values():
+            solver = MPESolver(
                 distributions=leaf.distributions,
-                likelihood_divisor=likelihood_max if likelihoods else None
-            ).solve() for leaf in conditional_jpt.leaves.values()
-        ]
-
-        mpe_candidates = Heap(
-            data=[(*next(solver), solver) for solver in mpe_solvers],
-            key=itemgetter(1)
-        )
+                likelihood_divisor=likelihood_max if likelihoods else None,
+                dirac_likelihoods=dirac_likelihoods
+            ).solve()
+            for solution, likelihood in solver:
+                mpe_candidates.push((solution, likelihood * leaf.prior, leaf, solver))
+                break
 
         count = 0
         while mpe_candidates and (not k or count < k):
-            solution, likelihood, solver = mpe_candidates.pop()
+            solution, likelihood, leaf, solver = mpe_candidates.pop()
             values = ValueAssignment(
                 [
                     (variable, value if variable.numeric else set(value))
@@ -1359,10 +1363,9 @@ class JPT:
             )
             values = values.label_assignment()
             yield values, likelihood
-            try:
-                mpe_candidates.push((*next(solver), solver))
-            except StopIteration:
-                pass
+            for solution, likelihood in solver:
+                mpe_candidates.push((solution, likelihood * leaf.prior, leaf, solver))
+                break
             count += 1
 
     def _preprocess_query(
-- 
2.43.0


From 58977a76849a3eb10f645088eafcd5fd7c9a1a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 48/96] fix: moments around a center were computed with
 internal values

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index bea877d..67bb426 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2555,9 +2555,9 @@ class JPT:
         posteriors = self.posterior([v for v in self.variables if v.numeric or v.integer], evidence,
                                     fail_on_unsatisfiability)
 
-        # Convert c, if necessary, labels to internal value representations
-        if isinstance(center, LabelAssignment):
-            center = center.value_assignment()
+        # Convert c, if necessary, internal value representations to labels
+        if isinstance(center, ValueAssignment):
+            center = center.label_assignment()
 
         if posteriors is None:
             return None
-- 
2.43.0


From fcae7298610987425e9c34a26e313d058850d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:27 +0000
Subject: [PATCH 49/96] fix: reporting unsatisfiable evidence failed with a
 KeyError

---
 src/jpt/trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 67bb426..b43c05c 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1091,7 +1091,7 @@ class JPT:
         if p_e == 0:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
             else:
                 return None
@@ -1187,7 +1187,7 @@ class JPT:
         except ValueError:
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Evidence %s is unsatisfiable.' % format_path(evidence),
+                    'Evidence %s is unsatisfiable.' % format_path(evidence_),
                     reasons=inconsistencies
                 )
             return None
@@ -1243,7 +1243,7 @@ class JPT:
 
         if posteriors is None:
             if fail_on_unsatisfiability:
-                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence))
+                raise Unsatisfiability('Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_))
             else:
                 return None
 
@@ -2289,7 +2289,7 @@ class JPT:
             # raise an error if wanted
             if fail_on_unsatisfiability:
                 raise Unsatisfiability(
-                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence)
+                    'Query is unsatisfiable: P(%s) is 0.' % format_path(evidence_)
                 )
 
             # return None if error is not wanted
-- 
2.43.0


From a5d20723222e5434503e532ac44478c83cd2601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 50/96] fix: rows were assigned to no leaf or the wrong leaf at
 region borders

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index b43c05c..8561d03 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -176,7 +176,7 @@ class Node:
         for variable, restriction in self.path.items():
             index = variable_index_map[variable]
             if variable.numeric:
-                result *= (samples[:, index] > restriction.lower) & (samples[:, index] <= restriction.upper)
+                result *= [restriction.contains_value(value) for value in samples[:, index]]
             if variable.symbolic or variable.integer:
                 result *= np.isin(samples[:, index], list(restriction))
 
-- 
2.43.0


From eecdb3e9e14de2cb44dc8ae91c74f80a5ee7ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 51/96] fix: path consistency disagreed with the splits at
 region borders

---
 src/jpt/trees.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 8561d03..e380f7b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -123,15 +123,15 @@ class Node:
                 if variable.numeric:
 
                     # and a range is given
-                    if isinstance(value, ContinuousSet):
+                    if isinstance(value, (ContinuousSet, RealSet)):
                         # if the ranges don't intersect return false
-                        if value.isdisjoint(restriction):
+                        if restriction.isdisjoint(value):
                             return False
 
                     # if it is a singular value
                     else:
                         # check if the path allows this value
-                        if not restriction.lower < value <= restriction.upper:
+                        if not restriction.contains_value(value):
                             return False
 
                 # if the variable is symbolic or integer
-- 
2.43.0


From 19f7ca0b6f99f28a128399054b40f7c69e848c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:11 +0000
Subject: [PATCH 52/96] fix: densities of assignments mixed up labels and
 values

---
 src/jpt/trees.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index e380f7b..a50499f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1004,8 +1004,13 @@ class JPT:
 
         pdf = 0
         for leaf in self.apply(values_sets):
-            pdf += leaf.prior * (prod(leaf.distributions[var].pdf(value)
-                                      for var, value in values_scalars.items()) if values_scalars else 1)
+            densities = [
+                leaf.distributions[var].pdf(value) if var.numeric else leaf.distributions[var]._pdf(value)
+                for var, value in values_scalars.items()
+            ]
+            # impossible in one dimension means impossible, even if another one has infinite density
+            if all(densities):
+                pdf += leaf.prior * (prod(densities) if densities else 1)
         return pdf
 
     def infer(
-- 
2.43.0


From fe7c9ff8ae7e79d603d24bf9d34c40f010ca3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:52 +0000
Subject: [PATCH 53/96] fix: conditional models with a one-sided symbolic split
 could not be printed

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index a50499f..918d2de 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -297,7 +297,7 @@ class DecisionNode(Node):
                 fmt='logic'
             )
         elif self.variable.symbolic:
-            negate = len(self.splits[1]) > 1
+            negate = len(self.splits) > 1 and len(self.splits[1]) > 1
             if negate:
                 label = self.variable.domain.labels[fst(self.splits[0])]
                 return '%s%s' % ('\u00AC' if idx_split > 0 else '', label)
-- 
2.43.0


From d433f041a47bf976f2c64296a87ce35ca82f03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 54/96] fix: reasons of unsatisfiability were unreadable if
 none were recorded

---
 src/jpt/base/errors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/errors.py b/src/jpt/base/errors.py
index c65e2c0..6323955 100644
--- a/src/jpt/base/errors.py
+++ b/src/jpt/base/errors.py
@@ -12,7 +12,7 @@ class Unsatisfiability(Exception):
     @property
     def reasons(self) -> Iterable[Tuple]:
         yield from sorted(
-            [(likelihood, assignment) for assignment, likelihood in self._reasons.items()],
+            [(likelihood, assignment) for assignment, likelihood in (self._reasons or {}).items()],
             key=itemgetter(0),
             reverse=True
         )
-- 
2.43.0


From 003decf50b02d65979d9f5a31531972b5b5afdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:48 +0000
Subject: [PATCH 55/96] fix: learning failed or misplaced rows if values
 differed in the last digits only

---
 src/jpt/trees.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 918d2de..079f67f 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1607,6 +1607,9 @@ class JPT:
                     data[self.indices[start + split_pos], split_var_idx] +
                     data[self.indices[start + split_pos + 1], split_var_idx]
                 ) / 2
+                # the mean of adjacent numbers may be rounded to the lower one, which belongs to the left
+                if split_value == data[self.indices[start + split_pos], split_var_idx]:
+                    split_value = data[self.indices[start + split_pos + 1], split_var_idx]
                 splits = [
                     Interval(np.NINF, split_value, EXC, EXC),
                     Interval(split_value, np.PINF, INC, EXC)
@@ -2417,6 +2420,10 @@ class JPT:
         # get total number of samples and use 1/total as default value
         total_samples = self.total_samples()
 
+        # gaps of a few floating point numbers cannot carry a density
+        def is_gap(lower: float, upper: float) -> bool:
+            return np.isfinite([lower, upper]).all() and upper - lower > 1e-12 * max(abs(lower), abs(upper))
+
         # for every leaf
         for idx, leaf in self.leaves.items():
             # for numeric every distribution
@@ -2427,7 +2434,7 @@ class JPT:
                     right = None
 
                     # if the leaf is not the "lowest" in this dimension
-                    if np.NINF < leaf.path[variable].lower < distribution.cdf.intervals[0].upper:
+                    if is_gap(leaf.path[variable].lower, distribution.cdf.intervals[0].upper):
                         # create uniform distribution as bridge between the leaves
                         left = ContinuousSet(
                             leaf.path[variable].lower,
@@ -2435,12 +2442,16 @@ class JPT:
                         )
 
                     # if the leaf is not the "highest" in this dimension
-                    if np.PINF > leaf.path[variable].upper > distribution.cdf.intervals[-2].upper:
+                    if is_gap(distribution.cdf.intervals[-2].upper, leaf.path[variable].upper):
                         # create uniform distribution as bridge between the leaves
                         right = ContinuousSet(
                             distribution.cdf.intervals[-2].upper,
                             leaf.path[variable].upper,
                         )
+                    # if there is nothing to fill
+                    if left is None and right is None:
+                        continue
+
                     if distribution.is_dirac_impulse():
                         # noinspection PyTypeChecker
                         interval = ContinuousSet(
-- 
2.43.0


From e31b31e0eca87e55deeca17dcb3860b32e20feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:42 +0000
Subject: [PATCH 56/96] fix: the JSON form of real sets kept only their last
 interval

---
 src/jpt/base/intervals.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index bb24ed1..903c74e 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -220,7 +220,7 @@ cdef class RealSet(NumberSet):
 
     def to_json(self) -> Dict[str, Any]:
         return {
-            'intervals': i.to_json() for i in self.intervals
+            'intervals': [i.to_json() for i in self.intervals]
         }
 
     @staticmethod
-- 
2.43.0


From 4559f8a07bff2144876ad14cbacc5fd9a2e565bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:59 +0000
Subject: [PATCH 57/96] fix: piecewise functions with undefined or quadratic
 pieces were lost in JSON

---
 src/jpt/base/functions.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index cbd823e..46f83f7 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -202,6 +202,9 @@ cdef class Undefined(Function):
     cpdef Function xmirror(self):
         return self.copy()
 
+    def to_json(self):
+        return {'type': 'undefined'}
+
 
 # ----------------------------------------------------------------------------------------------------------------------
 
@@ -702,6 +705,10 @@ cdef class LinearFunction(Function):
             return LinearFunction(data['slope'], data['intercept'])
         elif data['type'] == 'constant':
             return ConstantFunction(data['value'])
+        elif data['type'] == 'quadratic':
+            return QuadraticFunction(data['a'], data['b'], data['c'])
+        elif data['type'] == 'undefined':
+            return Undefined()
         else:
             raise TypeError('Unknown function type or type not given (%s)' % data.get('type'))
 
@@ -839,7 +846,7 @@ cdef class QuadraticFunction(Function):
         return self
 
     def to_json(self):
-        return {'a': self.a, 'b': self.b, 'c': self.c}
+        return {'type': 'quadratic', 'a': self.a, 'b': self.b, 'c': self.c}
 
     @staticmethod
     def from_json(data):
-- 
2.43.0


From bab180a6903a568d66230a512d3fcbb4c51a824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:19 +0000
Subject: [PATCH 58/96] fix: equal sets and functions had different hashes

---
 src/jpt/base/functions.pyx |  4 ++++
 src/jpt/base/intervals.pyx | 12 +++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 46f83f7..760b7f6 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -322,6 +322,8 @@ cdef class ConstantFunction(Function):
         self.value = value
 
     def __hash__(self):
+        if np.isnan(self.value):
+            return hash(Undefined)
         return hash((LinearFunction, 0, self.value))
 
     def __str__(self):
@@ -473,6 +475,8 @@ cdef class LinearFunction(Function):
         self.c = c
 
     def __hash__(self):
+        if np.isnan(self.m) or np.isnan(self.c):
+            return hash(Undefined)
         return hash((LinearFunction, self.m, self.c))
 
     cpdef DTYPE_t eval(self, DTYPE_t x):
diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 903c74e..5639b6b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -197,10 +197,10 @@ cdef class RealSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
-        tmp = sorted(self.intervals, key=attrgetter('right'))
-        tmp = sorted(self.intervals, key=attrgetter('upper'))
-        tmp = sorted(self.intervals, key=attrgetter('left'))
-        return hash((RealSet, tuple(sorted(tmp, key=attrgetter('lower')))))
+        simplified = self.simplify()
+        if isinstance(simplified, ContinuousSet):
+            return hash(simplified)
+        return hash((RealSet, tuple(simplified.intervals)))
 
     def __round__(self, n: int):
         return RealSet(
@@ -1288,8 +1288,10 @@ cdef class ContinuousSet(NumberSet):
         return not self.isempty()
 
     def __hash__(self):
+        if self.isempty():
+            return hash((ContinuousSet, None))
         return hash(
-            (ContinuousSet, self.lower, self.upper, self.left, self.right)
+            (ContinuousSet, self.min, self.max)
         )
 
     def __getstate__(self):
-- 
2.43.0


From 2aeea2ab5eb254e34a9a5b290683bdd4bd34889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 59/96] fix: text of single-point intervals could not be
 parsed, parsed empty sets were shared

---
 src/jpt/base/intervals.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 5639b6b..500d864 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -556,6 +556,7 @@ cdef class RealSet(NumberSet):
 # ----------------------------------------------------------------------------------------------------------------------
 
 re_int = re.compile(r'(?P<ldelim>\(|\[|\])(?P<lval>.+),(?P<rval>.+)(?P<rdelim>\)|\]|\[)')
+re_point = re.compile(r'{(?P<val>[^{},]+)}')
 
 
 @cython.final
@@ -612,13 +613,18 @@ cdef class ContinuousSet(NumberSet):
         :param s: The string to parse
         :return: The corresponding ContinuousSet
         """
+        s = s.replace(" ", "")
         if s == _EMPTYSET:
-            return EMPTY
+            return EMPTY.copy()
         interval = ContinuousSet(np.nan, np.nan)
-        tokens = re_int.match(s.replace(" ", "").replace('∞', 'inf'))
+        s = s.replace('∞', 'inf')
+        point = re_point.fullmatch(s)
+        if point is not None:
+            return ContinuousSet(float(point.group('val')), float(point.group('val')))
+        tokens = re_int.fullmatch(s)
 
         if tokens is None:
-            raise ValueError('Malformed input string: "{}"'.format(interval))
+            raise ValueError('Malformed input string: "{}"'.format(s))
 
         if tokens.group('ldelim') in ['(', ']']:
             interval.left = _EXC
-- 
2.43.0


From 3bcdbd0e688fe5705b9b79701141d09dd4c54b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:29 +0000
Subject: [PATCH 60/96] fix: copies and JSON form of quantile distributions
 that are not fitted yet

---
 src/jpt/distributions/quantile/quantiles.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 1e38f76..5b95229 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -55,7 +55,6 @@ cdef class QuantileDistribution:
     def __hash__(self):
         return hash((QuantileDistribution,
                      self.epsilon,
-                     self.verbose,
                      self.min_samples_mars,
                      self._cdf))
 
@@ -64,12 +63,14 @@ cdef class QuantileDistribution:
             raise TypeError('Illegal type: %s' % type(o).__name__)
         return (self.epsilon == o.epsilon and
                 self.min_samples_mars == o.min_samples_mars and
-                self.cdf == o.cdf)
+                (self.cdf is None) == (o.cdf is None) and
+                (self.cdf is None or self.cdf == o.cdf))
 
     cpdef QuantileDistribution copy(QuantileDistribution self):
         cdef QuantileDistribution result = QuantileDistribution(self.epsilon,
                                                                 min_samples_mars=self.min_samples_mars)
-        result.cdf = self.cdf.copy()
+        if self._cdf is not None:
+            result.cdf = self.cdf.copy()
         return result
 
     @staticmethod
@@ -638,13 +639,14 @@ cdef class QuantileDistribution:
     def to_json(self):
         return {'epsilon': self.epsilon,
                 'min_samples_mars': self.min_samples_mars,
-                'cdf': self._cdf.to_json()}
+                'cdf': self._cdf.to_json() if self._cdf is not None else None}
 
     @staticmethod
     def from_json(data):
         q = QuantileDistribution(epsilon=data['epsilon'],
                                  min_samples_mars=data['min_samples_mars'])
-        q.cdf = PiecewiseFunction.from_json(data['cdf'])
+        if data['cdf'] is not None:
+            q.cdf = PiecewiseFunction.from_json(data['cdf'])
         return q
 
 
-- 
2.43.0


From c04ff696dff89d4847f65ba25b66721e4a1f748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:49 +0000
Subject: [PATCH 61/96] fix: settings of variables were lost when restored

---
 src/jpt/variables.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 1064529..62f146d 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -165,7 +165,7 @@ class Variable:
         return {
             'name': self.name,
             'domain': None if self.domain is None else self.domain.to_json(),
-            'settings': self.settings
+            'settings': dict(self.settings)
         }
 
     @staticmethod
@@ -251,13 +251,14 @@ class NumericVariable(Variable):
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'NumericVariable':
         domain = Distribution.from_json(data['domain'])
+        settings = data.get('settings', data)
         return NumericVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT),
-            max_std=data.get(NumericVariable.MAX_STDEV),
-            precision=data.get(NumericVariable.PRECISION),
-            blur=data.get(NumericVariable.BLUR)
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            max_std=settings.get(NumericVariable.MAX_STDEV),
+            precision=settings.get(NumericVariable.PRECISION),
+            blur=settings.get(NumericVariable.BLUR)
         )
 
     @property
@@ -384,7 +385,7 @@ class IntegerVariable(Variable):
         return IntegerVariable(
             name=data['name'],
             domain=domain,
-            min_impurity_improvement=data.get(Variable.MIN_IMPURITY_IMPROVEMENT)
+            min_impurity_improvement=data.get('settings', data).get(Variable.MIN_IMPURITY_IMPROVEMENT)
         )
 
     def to_json(self) -> Dict[str, Any]:
@@ -424,9 +425,12 @@ class SymbolicVariable(Variable):
 
     @staticmethod
     def from_json(data: Dict[str, Any]) -> 'SymbolicVariable':
+        settings = data.get('settings', data)
         return SymbolicVariable(
             name=data['name'],
-            domain=Distribution.from_json(data['domain'])
+            domain=Distribution.from_json(data['domain']),
+            min_impurity_improvement=settings.get(Variable.MIN_IMPURITY_IMPROVEMENT),
+            invert_impurity=settings.get(INVERT_IMPURITY)
         )
 
     def to_json(self) -> Dict[str, Any]:
-- 
2.43.0


From 6a84618d3f4e0cb17c53e4601ddb76afd8760660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 62/96] fix: distributions could not be pickled, deep-copied or
 restored before they are fitted

---
 .../distributions/univariate/distribution.py  | 16 ++++++---
 src/jpt/distributions/univariate/integer.py   | 12 ++++---
 .../distributions/univariate/multinomial.py   | 16 ++++++---
 src/jpt/distributions/univariate/numeric.py   | 35 ++++++++-----------
 4 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/jpt/distributions/univariate/distribution.py b/src/jpt/distributions/univariate/distribution.py
index 5e242f5..3b163d4 100644
--- a/src/jpt/distributions/univariate/distribution.py
+++ b/src/jpt/distributions/univariate/distribution.py
@@ -173,11 +173,19 @@ class Distribution:
     def to_json(self):
         raise NotImplementedError()
 
-    def __getstate__(self):
-        return self.to_json()
+    def __reduce__(self):
+        # distribution types are created at runtime, so they are restored along with their instances
+        return Distribution._restore, (type(self).to_json(), self.to_json())
 
-    def __setstate__(self, state):
-        self.__dict__ = Distribution.from_json(state).__dict__
+    @staticmethod
+    def _restore(type_data, data) -> 'Distribution':
+        return Distribution.from_json(type_data).from_json(data)
+
+    def __copy__(self):
+        return self.copy()
+
+    def __deepcopy__(self, memo):
+        return self.copy()
 
     @staticmethod
     def from_json(data) -> Type['Distribution']:
diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index a6aa223..7894e49 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -141,8 +141,8 @@ class Integer(Distribution):
     def inst_to_json(self) -> Dict[str, Any]:
         return {
             'class': type(self).__qualname__,
-            'params': list(self._params),
-            'settings': self.settings
+            'params': list(self._params) if self._params is not None else None,
+            'settings': dict(self.settings)
         }
 
     @staticmethod
@@ -151,11 +151,15 @@ class Integer(Distribution):
 
     @classmethod
     def from_json(cls, data: Dict[str, Any]) -> 'Integer':
-        return cls(**data['settings']).set(data['params'])
+        result = cls(**data['settings'])
+        if data['params'] is not None:
+            result.set(data['params'])
+        return result
 
     def copy(self):
         result = type(self)(**self.settings)
-        result._params = np.array(self._params)
+        if self._params is not None:
+            result._params = np.array(self._params)
         return result
 
     @property
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 298555f..53de3de 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -204,7 +204,10 @@ class Multinomial(Distribution):
         ))
 
     def copy(self):
-        return type(self)(**self.settings).set(params=self._params)
+        result = type(self)(**self.settings)
+        if self._params is not None:
+            result.set(params=self._params)
+        return result
 
     def _pdf(self, value: int) -> float:
         return self._p(value)
@@ -491,19 +494,24 @@ class Multinomial(Distribution):
     def inst_to_json(self):
         return {
             'class': type(self).__qualname__,
-            'params': list(self._params),
-            'settings': self.settings
+            'params': list(self._params) if self._params is not None else None,
+            'settings': dict(self.settings)
         }
 
     to_json = type_to_json
 
     @staticmethod
     def type_from_json(data):
+        if data['class'] == Bool.__qualname__ and data['labels'] == [False, True]:
+            return Bool
         return SymbolicType(data['class'], data['labels'])
 
     @classmethod
     def from_json(cls, data):
-        return cls(**data['settings']).set(data['params'])
+        result = cls(**data['settings'])
+        if data['params'] is not None:
+            result.set(data['params'])
+        return result
 
     def is_dirac_impulse(self):
         for p in self._params:
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index 00a5cd9..e75804b 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -329,9 +329,11 @@ class Numeric(Distribution):
         return result
 
     def copy(self):
-        dist = type(self)(**self.settings).set(
-            params=self._quantile.copy()
-        )
+        dist = type(self)(**self.settings)
+        if self._quantile is not None:
+            dist.set(
+                params=self._quantile.copy()
+            )
         dist.values = copy.copy(self.values)
         dist.labels = copy.copy(self.labels)
         return dist
@@ -427,21 +429,22 @@ class Numeric(Distribution):
     def inst_to_json(self):
         return {
             'class': type(self).__name__,
-            'settings': self.settings,
+            'settings': dict(self.settings),
             'quantile': self._quantile.to_json() if self._quantile is not None else None
         }
 
     to_json = type_to_json
 
-    @staticmethod
-    def from_json(data):
-        return Numeric(
-            **data['settings']
-        ).set(
-            QuantileDistribution.from_json(
-                data['quantile']
+    @classmethod
+    def from_json(cls, data):
+        result = cls(**data['settings'])
+        if data['quantile'] is not None:
+            result.set(
+                QuantileDistribution.from_json(
+                    data['quantile']
+                )
             )
-        )
+        return result
 
     @classmethod
     def type_from_json(cls, data: Dict[str, Any]):
@@ -765,14 +768,6 @@ class ScaledNumeric(Numeric):
         clazz.labels = DataScalerProxy(clazz.scaler, True)
         return clazz
 
-    @classmethod
-    def from_json(cls, data):
-        return cls(
-            **data['settings']
-        ).set(
-            QuantileDistribution.from_json(data['quantile'])
-        )
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From c411f6c807682a96f7466406c4f998db10248ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:38 +0000
Subject: [PATCH 63/96] fix: restored models with fewer features than variables
 were not equal to the original

---
 src/jpt/trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 079f67f..d915183 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -766,9 +766,10 @@ class JPT:
         # the interface isn't modified therefore the jpt should work as before if not
         # specified different
         if dependencies is None:
-            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap({
-                var: list(self.targets) for var in self.features
-            })
+            self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
+                {var: list(self.targets) for var in self.features},
+                variables=self.variables
+            )
         else:
             self.dependencies: VariableMap[Variable, List[Variable]] = VariableMap(
                 dependencies.items(),
-- 
2.43.0


From c5dad1f67ee49b48ac0139d6a128dfe90356c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 64/96] fix: arrays of integer labels or values were translated
 to garbage

---
 src/jpt/distributions/univariate/integer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index 7894e49..28e4050 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -191,6 +191,8 @@ class Integer(Distribution):
             )
         if not isinstance(value, Iterable):
             return cls.labels[value]
+        if isinstance(value, np.ndarray):
+            return np.array([cls.labels[v] for v in value_])
         # noinspection PyArgumentList
         return type(value)([cls.labels[v] for v in value_])
 
@@ -215,6 +217,8 @@ class Integer(Distribution):
             )
         if not isinstance(label, Iterable):
             return cls.values[label]
+        if isinstance(label, np.ndarray):
+            return np.array([cls.values[l] for l in label_])
         # noinspection PyArgumentList
         return type(label)([cls.values[l] for l in label_])
 
-- 
2.43.0


From 3e3a24b0b5a1eda20823a7ed60b622b85c273eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:18 +0000
Subject: [PATCH 65/96] fix: values assigned by variable name were not checked

---
 src/jpt/variables.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 62f146d..9675107 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -594,7 +594,10 @@ class VariableMap:
             return self.__getitem__(key.name)
         return self._map.__getitem__(key)
 
-    def __setitem__(self, variable: Union[str, Variable], value: Any) -> None:
+    def _get_variable(self, variable: Union[str, Variable]) -> Variable:
+        '''
+        Return the variable object that the given variable or variable name refers to.
+        '''
         if type(variable) is str:
             if variable not in self._variables:
                 raise ValueError(
@@ -605,6 +608,10 @@ class VariableMap:
         if not isinstance(variable, Variable):
             raise ValueError('Illegal argument value: '
                              'expected Variable, got %s.' % type(variable).__name__)
+        return variable
+
+    def __setitem__(self, variable: Union[str, Variable], value: Any) -> None:
+        variable = self._get_variable(variable)
         self._map[variable.name] = value
         if variable.name not in self._variables:
             self._variables[variable.name] = variable
@@ -785,6 +792,7 @@ class LabelAssignment(VariableAssignment):
                                  NumberSet,
                                  numbers.Number,
                                  str]) -> None:
+        variable = self._get_variable(variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
         elif isinstance(variable, SymbolicVariable):
@@ -824,6 +832,7 @@ class ValueAssignment(VariableAssignment):
     '''
 
     def __setitem__(self, variable: Variable, value: Union[Set[int], NumberSet, numbers.Number]) -> None:
+        variable = self._get_variable(variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
         elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
-- 
2.43.0


From ca314da363b87d18b8728e8929be206eb562de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:18 +0000
Subject: [PATCH 66/96] fix: value assignments accepted sets with symbolic
 values outside the domain

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 9675107..0d7cd36 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -835,7 +835,7 @@ class ValueAssignment(VariableAssignment):
         variable = self._get_variable(variable)
         if isinstance(variable, NumericVariable) and not isinstance(value, (numbers.Number, NumberSet)):
             raise TypeError('Expected value of type numbers.Number or NumberSet, got %s.' % type(value).__name__)
-        elif isinstance(variable, SymbolicVariable) and type(value) not in (numbers.Integral, set):
+        elif isinstance(variable, SymbolicVariable):
             if type(value) is not set:
                 value_ = {value}
             else:
-- 
2.43.0


From ee24fa33ab570b78f06fe7692423e4a1a538dd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 67/96] fix: a variable map could not be subtracted from itself

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 0d7cd36..a290784 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -657,7 +657,7 @@ class VariableMap:
 
     def __isub__(self, other):
         if isinstance(other, VariableMap):
-            for v in other:
+            for v in list(other):
                 if v in self:
                     del self[v]
         else:
-- 
2.43.0


From fac82af9cef4dde3c9de4d7619f3d2ca42c5df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 68/96] fix: assignments with symbolic labels, numbers, real
 sets or internal values did not survive JSON

---
 src/jpt/variables.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index a290784..ca18757 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -754,6 +754,19 @@ class VariableAssignment(VariableMap):
             copy[var] = var.assignment2set(val)
         return copy
 
+    def to_json(self) -> Dict[str, Any]:
+        """ Convert this assignment to a json serializable dictionary. To achieve that sets are replaced
+        with lists."""
+        result = dict()
+        for variable, value in self.items():
+            if variable.symbolic or variable.integer:
+                if isinstance(value, collections.abc.Iterable) and not isinstance(value, str):
+                    value = list(value)
+
+            result[variable.name] = to_json(value)
+
+        return result
+
     @classmethod
     def from_json(cls,
                   variables: Iterable[Variable],
@@ -766,9 +779,18 @@ class VariableAssignment(VariableMap):
             variable = var_by_name[v_name]
 
             if variable.symbolic or variable.integer:
-                value_ = set(value)
+                value_ = (
+                    set(value)
+                    if isinstance(value, collections.abc.Iterable) and not isinstance(value, str)
+                    else value
+                )
             elif variable.numeric:
-                value_ = ContinuousSet.from_json(value)
+                if isinstance(value, numbers.Number):
+                    value_ = value
+                elif 'intervals' in value:
+                    value_ = RealSet.from_json(value)
+                else:
+                    value_ = ContinuousSet.from_json(value)
             else:
                 raise NotImplementedError('Unknown variable type: %s' % variable.__class__.__name__)
 
@@ -808,19 +830,6 @@ class LabelAssignment(VariableAssignment):
     def value_assignment(self) -> 'ValueAssignment':
         return ValueAssignment([(var, var.domain.label2value(val)) for var, val in self.items()])
 
-    def to_json(self) -> Dict[str, Any]:
-        """ Convert this LabelAssignment to a json serializable dictionary. To achieve that sets are replaced
-        with lists."""
-        result = dict()
-        for variable, value in self.items():
-            if variable.symbolic or variable.integer:
-                if isinstance(value, collections.abc.Iterable):
-                    value = list(value)
-
-            result[variable.name] = to_json(value)
-
-        return result
-
 
 # ----------------------------------------------------------------------------------------------------------------------
 
-- 
2.43.0


From e2188980113c0c385847802472423ce55f4891e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 69/96] fix: comparing an interval or a real set with anything
 else failed

---
 src/jpt/base/intervals.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/base/intervals.pyx b/src/jpt/base/intervals.pyx
index 500d864..728c35b 100644
--- a/src/jpt/base/intervals.pyx
+++ b/src/jpt/base/intervals.pyx
@@ -180,6 +180,8 @@ cdef class RealSet(NumberSet):
         return (' %s ' % _CUP).join([str(i) for i in self.intervals])
 
     def __eq__(self, other):
+        if not isinstance(other, NumberSet):
+            return False
         if self.isempty() and other.isempty():
             return True
         self_ = self.simplify()
@@ -1208,6 +1210,8 @@ cdef class ContinuousSet(NumberSet):
     def __eq__(self, other):
         if isinstance(other, RealSet):
             return other == self
+        if not isinstance(other, ContinuousSet):
+            return False
         return all((
             self.min == other.min,
             self.max == other.max
-- 
2.43.0


From 207f6e9ae4dd74fee91af192060c8a81f0925802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:18 +0000
Subject: [PATCH 70/96] fix: blurred evidence on scaled variables or in value
 space was bound to a wrong interval

---
 src/jpt/trees.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index d915183..536468b 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1426,30 +1426,28 @@ class JPT:
                     # Apply a "blur" to single value evidences, if any blur is set
                     elif var.blur:
                         prior = self.priors[var.name]
-                        transformer = var.domain.label2value if space == 'labels' else var.domain.value2label
+                        if space == 'labels':
+                            val = var.domain.label2value(val)
                         quantile = prior.cdf.functions[
                             max(
                                 1,
                                 min(
                                     len(prior.cdf) - 2,
-                                    prior.cdf.idx_at(transformer(val))
+                                    prior.cdf.idx_at(val)
                                 )
                             )
                         ].eval(val)
-                        lower = transformer(quantile - var.blur / 2)
-                        upper = transformer(quantile + var.blur / 2)
-                        query_[var] = ContinuousSet(
-                            transformer(
-                                prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
-                                    lower
-                                )
+                        lower = quantile - var.blur / 2
+                        upper = quantile + var.blur / 2
+                        interval = ContinuousSet(
+                            prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
+                                lower
                             ),
-                            transformer(
-                                prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
-                                    upper
-                                )
+                            prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
+                                upper
                             )
                         )
+                        query_[var] = interval if space == 'values' else var.domain.value2label(interval)
                     else:
                         query_[var] = ContinuousSet(val, val)
                 elif isinstance(arg, ContinuousSet):
-- 
2.43.0


From c1bdab8b67bf9426073c25ff33c9291c4b9f461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 71/96] fix: lower end of blurred evidence was clipped at the
 wrong piece of the quantile function

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 536468b..37d6ce6 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -1440,7 +1440,7 @@ class JPT:
                         lower = quantile - var.blur / 2
                         upper = quantile + var.blur / 2
                         interval = ContinuousSet(
-                            prior.ppf.functions[max(1, min(len(prior.cdf) - 2, prior.ppf.idx_at(lower)))].eval(
+                            prior.ppf.functions[max(1, min(len(prior.ppf) - 2, prior.ppf.idx_at(lower)))].eval(
                                 lower
                             ),
                             prior.ppf.functions[min(len(prior.ppf) - 2, max(1, prior.ppf.idx_at(upper)))].eval(
-- 
2.43.0


From cc624713363eb42df5d1b80b2e55ecf86ee25ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:11 +0000
Subject: [PATCH 72/96] fix: leaf probabilities of overlapping intervals
 exceeded one

---
 src/jpt/trees.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 37d6ce6..5a88471 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -513,6 +513,10 @@ class Leaf(Node):
             This can be useful to use the same likelihood parameters for different test sets for example in cross
             validation processes.
         """
+        if isinstance(value, RealSet):
+            # the intervals may overlap
+            value = value.copy().simplify()
+
         if isinstance(value, RealSet):
             return sum(self._numeric_probability(variable, cs, dirac_scaling, min_distances) for cs in value.intervals)
 
-- 
2.43.0


From 4b39cf4aeb1b5f2c4f0f2524bc529fc7509dffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 73/96] fix: similarity of numeric distributions with point
 masses was undefined or ignored them

---
 src/jpt/distributions/univariate/numeric.py | 26 ++++++++++-----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e75804b..b879662 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -24,7 +24,7 @@ except ModuleNotFoundError:
 
     pyximport.install()
 finally:
-    from ...base.intervals import R, ContinuousSet, RealSet, NumberSet
+    from ...base.intervals import EXC, R, ContinuousSet, RealSet, NumberSet
     from ...base.functions import LinearFunction, ConstantFunction, PiecewiseFunction, Undefined
     from ..quantile.quantiles import QuantileDistribution
 
@@ -629,22 +629,20 @@ class Numeric(Distribution):
     ) -> float:
         if d1 == d2:
             return 1
-        points = list(
-            sorted(
-                set(d1.pdf.boundaries()) | set(d2.pdf.boundaries())
-            )
+        points = sorted(
+            set(d1.cdf.boundaries()) | set(d2.cdf.boundaries())
         )
         intersection = 0
         union = 0
-        for p1, p2 in pairwise(points):
-            v1 = d1.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            v2 = d2.pdf.eval(
-                ContinuousSet(p1, p2).any_point()
-            )
-            intersection += min(v1, v2) * (p2 - p1)
-            union += max(v1, v2) * (p2 - p1)
+        # both densities are constant in between the points, which may in turn have probability mass themselves
+        for interval in (
+            [ContinuousSet(p, p) for p in points] +
+            [ContinuousSet(p1, p2, EXC, EXC) for p1, p2 in pairwise(points)]
+        ):
+            v1 = d1._p(interval)
+            v2 = d2._p(interval)
+            intersection += min(v1, v2)
+            union += max(v1, v2)
         return intersection / union
 
     def plot(
-- 
2.43.0


From 7b76aec88406424ab3368a0b8f75ab1f32495f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:56 +0000
Subject: [PATCH 74/96] fix: conditional trees could not be pruned

---
 src/jpt/trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 5a88471..8d6f72c 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2639,6 +2639,8 @@ class JPT:
         queue: deque[DecisionNode] = deque(list(jpt.innernodes.values()))
         while queue:
             node: DecisionNode = queue.popleft()
+            if len(node.children) != 2:  # conditional trees may have nodes with a single child
+                continue
             left, right = node.children
             if (
                     node.idx not in jpt.innernodes
-- 
2.43.0


From 96b7b56c4dc4245115ff14b3c48496989c5fb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 75/96] fix: pruning with one approximation error for all
 variables failed on symbolic and integer ones

---
 src/jpt/trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index 8d6f72c..e383218 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2686,7 +2686,7 @@ class JPT:
                     [left.distributions[variable], right.distributions[variable]],
                     normalized([left.prior, right.prior])
                 )
-                if variable in approximate:
+                if variable in approximate and variable.numeric:  # only cdfs can be approximated
                     leaf.distributions[variable] = (
                         leaf.distributions[variable]
                         .approximate(approximate[variable])
-- 
2.43.0


From 4ae44156acef7a597575eecf5bbf77abd1c58ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:11 +0000
Subject: [PATCH 76/96] fix: pruning with an approximation failed on leaves
 with point masses or of probability zero

---
 src/jpt/distributions/univariate/numeric.py | 6 ++++++
 src/jpt/trees.py                            | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index b879662..e24ec46 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -612,6 +612,12 @@ class Numeric(Distribution):
             error_max: float = None,
             n_segments: int = None
     ) -> 'Numeric':
+        # the density does not represent point masses, so it cannot be approximated
+        if any(
+                not np.isclose(f.eval(i.upper), g.eval(j.lower))
+                for (i, f), (j, g) in pairwise(self.cdf.iter())
+        ):
+            return self.copy()
         return type(self)(**self.settings).set(
             QuantileDistribution.from_pdf(
                 self.pdf.approximate(
diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index e383218..b451815 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -2680,11 +2680,12 @@ class JPT:
                 node.parent,
                 left.prior + right.prior
             )
+            weights = normalized([left.prior, right.prior]) if leaf.prior else [.5, .5]
 
             for variable in self.variables:
                 leaf.distributions[variable] = variable.domain.merge(
                     [left.distributions[variable], right.distributions[variable]],
-                    normalized([left.prior, right.prior])
+                    weights
                 )
                 if variable in approximate and variable.numeric:  # only cdfs can be approximated
                     leaf.distributions[variable] = (
-- 
2.43.0


From ec493075c291a175e71f85166b04947dedccf2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:15 +0000
Subject: [PATCH 77/96] fix: one equally spaced sample was not the centre of
 the interval

---
 src/jpt/base/cutils.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/cutils.pxd b/src/jpt/base/cutils.pxd
index 61ea4fe..027b912 100644
--- a/src/jpt/base/cutils.pxd
+++ b/src/jpt/base/cutils.pxd
@@ -308,7 +308,7 @@ cpdef inline DTYPE_t[::1] linspace(DTYPE_t start, DTYPE_t stop, np.int64_t num):
     cdef DTYPE_t space, val = start
     cdef np.int64_t i
     if num == 1:
-        samples[0] = (stop - start) / 2
+        samples[0] = (start + stop) / 2
     else:
         n = <DTYPE_t> num - 1
         space = (stop - start) / n
-- 
2.43.0


From 0f337926b822717ebc3fa45aeb13797336f3c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:15 +0000
Subject: [PATCH 78/96] fix: the empty set of integers could not be formatted

---
 src/jpt/base/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index c316520..fe6c9dc 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -119,6 +119,8 @@ def setstr_int(intset: Set[int], sep_inner: str = '', sep_outer: str = ', ') ->
     :param sep_outer:   the separator character to be used for separating non-consecutive ("outer") numbers
     '''
     elements = list(sorted(intset))
+    if not elements:
+        return ''
     chunks = []
     chunk = [elements[0]]
     for a, b in pairwise(elements):
-- 
2.43.0


From 573349e2e64cc4b67f18a932218322e131996adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:15 +0000
Subject: [PATCH 79/96] fix: integer weight vectors were normalised to zeros

---
 src/jpt/base/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index fe6c9dc..86511e6 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -377,7 +377,7 @@ def normalized(
                 result[e]for e in range(len(dist_))
             ]
         if isinstance(dist, np.ndarray):
-            return np.array(result, dtype=dist.dtype)
+            return np.array(result, dtype=dist.dtype if np.issubdtype(dist.dtype, np.floating) else np.float64)
         return result
 
 
-- 
2.43.0


From 5e25eee30b8d01feb87832d236dc5e6b4d9079c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:15 +0000
Subject: [PATCH 80/96] fix: searching a missing tuple in a heap raised the
 wrong error

---
 src/jpt/base/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/base/utils.py b/src/jpt/base/utils.py
index 86511e6..9eabee8 100644
--- a/src/jpt/base/utils.py
+++ b/src/jpt/base/utils.py
@@ -529,5 +529,5 @@ class Heap:
                 return idx
         else:
             raise ValueError(
-                'Item %s not found.' % item
+                'Item %s not found.' % (item,)
             )
-- 
2.43.0


From af7336c6577c473c1bb88cc76902754db0032337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 81/96] fix: refitting a sequential tree kept leaves of the
 previous model

---
 src/jpt/sequential_trees.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index bec2550..96eecc1 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -86,6 +86,7 @@ class SequentialJPT:
         # create template tree from learnt joint tree
         self.template_tree.root = expanded_template_tree.root
         self.template_tree.innernodes = expanded_template_tree.innernodes
+        self.template_tree.leaves.clear()  # leaves of a previous fit
         for idx, leaf in expanded_template_tree.leaves.items():
             leaf.distributions = VariableMap([(v, d) for v, d in leaf.distributions.items()
                                              if v.name in self.template_tree.varnames.keys()])
-- 
2.43.0


From e5d9fb69c35e3286bb073fedcc4c832a8ea39e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 82/96] fix: marginals of long sequences were computed from
 messages that had not converged or vanished

---
 src/jpt/sequential_trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 96eecc1..aeb2360 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -311,7 +311,8 @@ class SequentialJPT:
 
         # Run (loopy) belief propagation (LBP)
         start = datetime.datetime.now()
-        factor_graph.lbp(max_iters=100, progress=True)
+        # messages must be normalized: small ones are taken for converged and vanish in long sequences
+        factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
         leaf_distribution = {
             var.name: normalized(dist, zeros=.1)
             for var, dist in factor_graph.rv_marginals()
-- 
2.43.0


From de987e43381922159c7533df60b67e2337a91f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 83/96] fix: impossible sequences of evidence raised a
 ValueError

---
 src/jpt/sequential_trees.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index aeb2360..f927c0f 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -314,9 +314,14 @@ class SequentialJPT:
         # messages must be normalized: small ones are taken for converged and vanish in long sequences
         factor_graph.lbp(normalize=True, max_iters=max(100, 2 * len(evidence_)), progress=True)
         leaf_distribution = {
-            var.name: normalized(dist, zeros=.1)
-            for var, dist in factor_graph.rv_marginals()
+            var.name: dist for var, dist in factor_graph.rv_marginals()
         }
+        for name, dist in leaf_distribution.items():
+            if not np.sum(dist) > 0:
+                raise Unsatisfiability(
+                    'Unsatisfiable evidence sequence: no sequence of leaves is possible at time step %s.' % name
+                )
+            leaf_distribution[name] = normalized(dist, zeros=.1)
 
         now = datetime.datetime.now()
         self.logger.debug(
-- 
2.43.0


From b2c5437a0aee45d9ccf67f1cd8fd45a807f93376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 84/96] fix: marginals of sequences of more than ten steps were
 assigned to the wrong steps

---
 src/jpt/sequential_trees.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index f927c0f..782b14b 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -1,5 +1,4 @@
 import datetime
-from operator import itemgetter
 from typing import List, Dict
 
 import numpy as np
@@ -330,14 +329,11 @@ class SequentialJPT:
         )
 
         # transform trees
-        for ((tree_name, distribution), tree) in zip(
-            sorted(leaf_distribution.items(), key=itemgetter(0)),
-            altered_jpts
-        ):
+        for timestep, tree in enumerate(altered_jpts):
             prior = dict(
                 zip(
-                    sorted(self.template_tree.leaves.keys()),
-                    distribution
+                    self.template_tree.leaves.keys(),
+                    leaf_distribution["t%s" % timestep]
                 )
             )
 
-- 
2.43.0


From 0c9f7cc3d6ab8867e2ec3f4dbb31079157c09b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:28 +0000
Subject: [PATCH 85/96] fix: evidence was counted twice in the marginals of a
 sequence

---
 src/jpt/sequential_trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jpt/sequential_trees.py b/src/jpt/sequential_trees.py
index 782b14b..d9c95a9 100644
--- a/src/jpt/sequential_trees.py
+++ b/src/jpt/sequential_trees.py
@@ -337,8 +337,10 @@ class SequentialJPT:
                 )
             )
 
-            adjusted_tree = tree.multiply_by_leaf_prior(prior)
-            result.append(adjusted_tree)
+            # the marginals already account for the evidence in this time step
+            for idx, leaf in tree.leaves.items():
+                leaf.prior = prior[idx]
+            result.append(tree.normalize())
 
         self.logger.debug('Independent marginals computation finished.')
         return result
-- 
2.43.0


From 000ad1d405c2e46c20711fc5be5c7a608f8ab1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:12 +0000
Subject: [PATCH 86/96] fix: printed sets of integer values showed internal
 values instead of labels

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index ca18757..465abc7 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -365,7 +365,7 @@ class IntegerVariable(Variable):
             if len(assignment) == 1:
                 return self.str(first(assignment), fmt=fmt)
             elif fmt == 'set':
-                valstr = setstr_int(assignment)
+                valstr = setstr_int(self.domain.value2label(assignment))
                 return f'{self.name} {SYMBOL.IN} {{{valstr}}}'
             elif fmt == 'logic':
                 return ' v '.join([self.str(a, fmt=fmt) for a in assignment])
-- 
2.43.0


From 48ab53d6b8689ea93a7af11828e2017ef95b7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:12 +0000
Subject: [PATCH 87/96] fix: printed sets of scaled numeric values showed
 internal values instead of labels

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 465abc7..fdd0fe4 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -311,7 +311,7 @@ class NumericVariable(Variable):
         if isinstance(assignment, numbers.Number):
             return prec % (self.name, self.domain.labels[assignment])
         if fmt == 'set':
-            return f'{self.name} {SYMBOL.IN} {str(assignment)}'
+            return f'{self.name} {SYMBOL.IN} {str(self.domain.value2label(assignment))}'
         elif fmt == 'logic':
             s = []
             for i in assignment.intervals:
-- 
2.43.0


From 76819d1cb5a03dc05a6ff2d69b78d547d295a20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:12 +0000
Subject: [PATCH 88/96] fix: negative infinity was not removed from the data of
 an inferred numeric domain

---
 src/jpt/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index fdd0fe4..5b0472c 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -525,7 +525,7 @@ def infer_from_dataframe(df,
             elif scale_numeric_types:
                 values = df[col]
                 if remove_nan:
-                    values = values[~values.isin([np.nan, np.inf])]
+                    values = values[~values.isin([np.nan, np.inf, -np.inf])]
                 dom = NumericType(
                     '%s%s_TYPE_N' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
                     values.unique()
-- 
2.43.0


From cad5336a8827b08daa76b8307d773a589f75f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:12 +0000
Subject: [PATCH 89/96] fix: inferred integer variables ignored
 min_impurity_improvement

---
 src/jpt/variables.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 5b0472c..4f73d62 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -547,7 +547,9 @@ def infer_from_dataframe(df,
                     lmin=df[col].min(),
                     lmax=df[col].max()
                 )
-            var = IntegerVariable(col, dom)
+            var = IntegerVariable(col,
+                                  dom,
+                                  min_impurity_improvement=min_impurity_improvement)
         else:
             raise TypeError('Unknown column type:', col, '[%s]' % dtype)
         variables.append(var)
-- 
2.43.0


From 2405e03870ca558bf9ea5117fb1e1b17f984ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:07 +0000
Subject: [PATCH 90/96] fix: inferred variables did not follow the kind of a
 user-provided domain

---
 src/jpt/variables.py | 60 +++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/jpt/variables.py b/src/jpt/variables.py
index 4f73d62..c9aa5e1 100644
--- a/src/jpt/variables.py
+++ b/src/jpt/variables.py
@@ -505,24 +505,17 @@ def infer_from_dataframe(df,
     '''
     variables = []
     for col, dtype in zip(df.columns, df.dtypes):
-        if dtype in (str, object, bool):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            elif dtype in (bool, np.bool_):
-                dom = Bool
-            else:
-                dom = SymbolicType(
-                    '%s%s_TYPE_S' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
-                    labels=df[col].unique()
-                )
-            var = SymbolicVariable(col,
-                                   dom,
-                                   min_impurity_improvement=min_impurity_improvement)
-
+        if excluded_columns is not None and col in excluded_columns:
+            dom = excluded_columns[col]
+        elif dtype in (bool, np.bool_):
+            dom = Bool
+        elif dtype in (str, object):
+            dom = SymbolicType(
+                '%s%s_TYPE_S' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
+                labels=df[col].unique()
+            )
         elif dtype in (np.float64, np.float32):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            elif scale_numeric_types:
+            if scale_numeric_types:
                 values = df[col]
                 if remove_nan:
                     values = values[~values.isin([np.nan, np.inf, -np.inf])]
@@ -532,26 +525,31 @@ def infer_from_dataframe(df,
                 )
             else:
                 dom = Numeric
+        elif dtype in (np.int32, np.int64):
+            dom = IntegerType(
+                '%s%s_TYPE_I' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
+                lmin=df[col].min(),
+                lmax=df[col].max()
+            )
+        else:
+            raise TypeError('Unknown column type:', col, '[%s]' % dtype)
+
+        # the kind of the variable follows from its domain, which may be user-defined
+        if issubclass(dom, Multinomial):
+            var = SymbolicVariable(col,
+                                   dom,
+                                   min_impurity_improvement=min_impurity_improvement)
+        elif issubclass(dom, Integer):
+            var = IntegerVariable(col,
+                                  dom,
+                                  min_impurity_improvement=min_impurity_improvement)
+        else:
             var = NumericVariable(col,
                                   dom,
                                   min_impurity_improvement=min_impurity_improvement,
                                   blur=blur,
                                   max_std=max_std,
                                   precision=precision)
-        elif dtype in (np.int32, np.int64):
-            if excluded_columns is not None and col in excluded_columns:
-                dom = excluded_columns[col]
-            else:
-                dom = IntegerType(
-                    '%s%s_TYPE_I' % (col.upper(), '_' + str(uuid.uuid4()) if unique_domain_names else ''),
-                    lmin=df[col].min(),
-                    lmax=df[col].max()
-                )
-            var = IntegerVariable(col,
-                                  dom,
-                                  min_impurity_improvement=min_impurity_improvement)
-        else:
-            raise TypeError('Unknown column type:', col, '[%s]' % dtype)
         variables.append(var)
     return variables
 
-- 
2.43.0


From 8cd7c8567b6efa77fccab7875c081fcddbb02f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:57 +0000
Subject: [PATCH 91/96] fix: domains scaled to single-precision data could not
 be saved as JSON

---
 src/jpt/distributions/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/distributions/utils.py b/src/jpt/distributions/utils.py
index ba7a423..a29df7d 100644
--- a/src/jpt/distributions/utils.py
+++ b/src/jpt/distributions/utils.py
@@ -28,8 +28,8 @@ class DataScaler:
             self.fit(data.reshape(-1, 1))
 
     def fit(self, data):
-        self.mean = np.mean(data)
-        scale = np.std(data)
+        self.mean = float(np.mean(data))
+        scale = float(np.std(data))
         self.scale = ifnot(1 if np.isnan(scale) else scale, 1)
 
     def inverse_transform(self, x, make_copy=True):
-- 
2.43.0


From 1d51aec8964f3df744175c18ee7c6907acc8f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:46 +0000
Subject: [PATCH 92/96] fix: densities with several impulses could not be
 converted to a CDF

---
 src/jpt/distributions/quantile/quantiles.pyx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jpt/distributions/quantile/quantiles.pyx b/src/jpt/distributions/quantile/quantiles.pyx
index 5b95229..d01ca6e 100644
--- a/src/jpt/distributions/quantile/quantiles.pyx
+++ b/src/jpt/distributions/quantile/quantiles.pyx
@@ -101,7 +101,6 @@ cdef class QuantileDistribution:
         cdf = PiecewiseFunction()
         pdf = pdf.rectify()
         head = 0
-        dirac_weights = normalized(dirac_weights) if dirac_weights is not None else []
         dirac_offsets = []
 
         last_int: ContinuousSet = None
@@ -109,10 +108,7 @@ cdef class QuantileDistribution:
             if not f.value:
                 f_ = ConstantFunction(head)
             elif np.isinf(f.value):
-                dirac_offsets.append((
-                    len(cdf),
-                    dirac_offsets.pop(-1) if dirac_offsets else 1
-                ))
+                dirac_offsets.append(len(cdf))
                 last_int = i
                 continue
             else:
@@ -133,8 +129,12 @@ cdef class QuantileDistribution:
             raise ValueError(
                 'Illegal CDF value > 1: %f' % (1 - residual)
             )
-        elif residual > 0:
-            dirac_offsets = [(i, w * residual) for i, w in dirac_offsets]
+        elif dirac_offsets:
+            if dirac_weights is None:
+                dirac_weights = [1] * len(dirac_offsets)
+            dirac_offsets = [
+                (i, w * max(residual, 0)) for i, w in zip(dirac_offsets, normalized(dirac_weights))
+            ]
 
         # Apply offsets by dirac impulses
         offset = 0
-- 
2.43.0


From 71381a9747a3d173a86b3263e64661e5b8fe36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 93/96] fix: the probability of a Boolean value could not be
 set

---
 src/jpt/distributions/univariate/multinomial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 53de3de..0ffe24a 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -642,9 +642,8 @@ class Bool(Multinomial):
     #     return f'{self._cl}<p=[{",".join([f"{v}={p:.3f}" for v, p in zip(self.labels, self._params)])}]>'
 
     def __setitem__(self, v, p):
-        if not isinstance(p, Iterable):
-            p = np.array([p, 1 - p])
         super().__setitem__(v, p)
+        super().__setitem__(not v, 1 - p)
 
 
 # ----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From e743479241f309b95e22de5c9fb05d03c063ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 94/96] fix: cropping and merging distributions dropped their
 settings

---
 src/jpt/distributions/univariate/integer.py     | 2 +-
 src/jpt/distributions/univariate/multinomial.py | 2 +-
 src/jpt/distributions/univariate/numeric.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jpt/distributions/univariate/integer.py b/src/jpt/distributions/univariate/integer.py
index 28e4050..8da9610 100644
--- a/src/jpt/distributions/univariate/integer.py
+++ b/src/jpt/distributions/univariate/integer.py
@@ -356,7 +356,7 @@ class Integer(Distribution):
         if abs(sum(params)) < 1e-10:
             raise Unsatisfiability('Sum of weights must not be zero.')
 
-        return type(distributions[0])().set(params)
+        return type(distributions[0])(**distributions[0].settings).set(params)
 
     def update(
             self,
diff --git a/src/jpt/distributions/univariate/multinomial.py b/src/jpt/distributions/univariate/multinomial.py
index 0ffe24a..cbe212a 100644
--- a/src/jpt/distributions/univariate/multinomial.py
+++ b/src/jpt/distributions/univariate/multinomial.py
@@ -481,7 +481,7 @@ class Multinomial(Distribution):
                 'Sum of weights must not be zero.'
             )
 
-        return type(distributions[0])().set(params)
+        return type(distributions[0])(**distributions[0].settings).set(params)
 
     @classmethod
     def type_to_json(cls):
diff --git a/src/jpt/distributions/univariate/numeric.py b/src/jpt/distributions/univariate/numeric.py
index e24ec46..eb631bb 100644
--- a/src/jpt/distributions/univariate/numeric.py
+++ b/src/jpt/distributions/univariate/numeric.py
@@ -345,7 +345,7 @@ class Numeric(Distribution):
     ) -> 'Numeric':
         if not all(distributions[0].__class__ == d.__class__ for d in distributions):
             raise TypeError('Only distributions of the same type can be merged.')
-        return type(distributions[0])().set(
+        return type(distributions[0])(**distributions[0].settings).set(
             QuantileDistribution.merge(
                 distributions,
                 weights
@@ -406,7 +406,7 @@ class Numeric(Distribution):
             if restriction.size() == 1:
                 return self._crop(restriction.lower)
             else:
-                return type(self)().set(
+                return type(self)(**self.settings).set(
                     self._quantile.crop(restriction)
                 )
 
-- 
2.43.0


From 470adc521670430623b1cf3f9b1fcdcff3bff97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:03 +0000
Subject: [PATCH 95/96] fix: comparing models ignored their features and failed
 for other objects

---
 src/jpt/trees.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/jpt/trees.py b/src/jpt/trees.py
index b451815..7afb57d 100644
--- a/src/jpt/trees.py
+++ b/src/jpt/trees.py
@@ -932,27 +932,16 @@ class JPT:
         self.__dict__ = JPT.from_json(json_data).__dict__
 
     def __eq__(self, o) -> bool:
-        eq = (
-            isinstance(o, JPT),
-            self.innernodes == o.innernodes,
-            self.leaves == o.leaves,
-            self.priors == o.priors,
-            self.min_samples_leaf == o.min_samples_leaf,
-            self.min_impurity_improvement == o.min_impurity_improvement,
-            self.targets == o.targets,
-            self.variables == o.variables,
-            self.max_depth == o.max_depth,
-            self.max_leaves == o.max_leaves,
-            self.dependencies == o.dependencies
-        )
+        if not isinstance(o, JPT):
+            return False
         return all((
-            isinstance(o, JPT),
             self.innernodes == o.innernodes,
             self.leaves == o.leaves,
             self.priors == o.priors,
             self.min_samples_leaf == o.min_samples_leaf,
             self.min_impurity_improvement == o.min_impurity_improvement,
             self.targets == o.targets,
+            self.features == o.features,
             self.variables == o.variables,
             self.max_depth == o.max_depth,
             self.max_leaves == o.max_leaves,
-- 
2.43.0


From aa247c1f5bd133f4d911df619b8a91508a25aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:24 +0000
Subject: [PATCH 96/96] fix: unsupported products of quadratic functions were
 None

---
 src/jpt/base/functions.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jpt/base/functions.pyx b/src/jpt/base/functions.pyx
index 760b7f6..6d8b009 100644
--- a/src/jpt/base/functions.pyx
+++ b/src/jpt/base/functions.pyx
@@ -786,8 +786,8 @@ cdef class QuadraticFunction(Function):
         if isinstance(f, ConstantFunction):
             return QuadraticFunction(self.a * f.value, self.b * f.value, self.c * f.value).simplify()
         else:
-            TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
-                                                                             type(f).__name__))
+            raise TypeError('Unsupported operand type(s) for mul(): %s and %s.' % (type(self).__name__,
+                                                                                   type(f).__name__))
 
     cpdef Function add(self, Function f):
         if isinstance(f, ConstantFunction):
-- 
2.43.0

