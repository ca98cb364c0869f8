From 037d71cad45f6ad1d335c85ae4ec7db7575c68f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 01/54] fix: asin, acos and atan of zero raised ValueError

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..b009944 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1976,7 +1976,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1989,7 +1989,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2002,7 +2002,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From 9d1811577cb7cdbc2acc1d3354c09dd3c543f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 02/54] fix: a zero Rat raised to a negative power raised
 ZeroDivisionError instead of giving inf

---
 src/simpy/expr.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index b009944..7ee4458 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -574,10 +574,9 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
-            value = self.value**other.value
-            if isinstance(value, Fraction):
-                return Rat(value)
+        # everything else (radicals, division by zero) is handled by Power
+        if isinstance(other, Rat) and other.is_int and (self.value != 0 or other.value >= 0):
+            return Rat(self.value**other.value)
         return super().__pow__(other)
 
     @cast
-- 
2.43.0


From 5544cfdb3d229c62b695eb21f5b28da31123d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 03/54] fix: powers of large integers were rounded through
 floats (sqrt(10**40 + 1) gave 10**20)

---
 src/simpy/expr.py | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 7ee4458..35e1490 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -728,6 +728,27 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _integer_power(n: int, x: Fraction) -> Optional[int]:
+    """n**x for a positive exponent x, if that's exactly an integer. Otherwise None.
+
+    Doesn't go through floats, because they can't tell an integer from something very close to one.
+    """
+    if x.denominator == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+
+    # binary search for the integer root
+    low, high = 0, (1 << -(-n.bit_length() // x.denominator)) - 1
+    while low < high:
+        mid = (low + high + 1) // 2
+        if mid**x.denominator <= n:
+            low = mid
+        else:
+            high = mid - 1
+    return low**x.numerator if low**x.denominator == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -742,14 +763,13 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
-        if isint(num) and isint(den):
+        num = _integer_power(b.value.numerator, abs(x.value))
+        den = _integer_power(b.value.denominator, abs(x.value))
+        if num is not None and den is not None:
             if x > 0:
-                return Rat(int(num), int(den))
+                return Rat(num, den)
             else:
-                return Rat(int(den), int(num))
+                return Rat(den, num)
 
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
@@ -764,9 +784,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             return -1 * Power(-b, x)
 
         ans = None
-        if isint(num) and num != 1:
+        if num is not None and num != 1:
             ans = Prod([Rat(num), Power(b.denominator, -x, skip_checks=True)], skip_checks=True)
-        elif isint(den) and den != 1:
+        elif den is not None and den != 1:
             ans = Prod([Rat(1, den), Power(b.numerator, x, skip_checks=True)], skip_checks=True)
         if ans:
             if x > 0:
-- 
2.43.0


From 600317930a4d77bec79559be169cd1bb816967be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 04/54] fix: repr of a logarithm with an integer base raised
 NotImplementedError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 35e1490..8cab8ad 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1575,7 +1575,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
-- 
2.43.0


From eb04edcc8157716ff98618456f0e75f9a2f56a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 05/54] fix: the derivative of a logarithm ignored its base

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8cab8ad..5e608e4 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1629,7 +1629,9 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-        return self.inner.diff(var) / self.inner
+        if self.base == e:
+            return self.inner.diff(var) / self.inner
+        return (log(self.inner) / log(self.base)).diff(var)
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
-- 
2.43.0


From e4e5e4dd70f8bbac9ec2a2429c6d17d61110135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 06/54] fix: evalf of a logarithm ignored its base

---
 src/simpy/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 5e608e4..1e3a17f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1636,7 +1636,9 @@ class log(Expr):
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
-- 
2.43.0


From e6c60d115ec873092f94657595c2ea99b076b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/54] fix: evalf raised TypeError for any expression with a
 symbol

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 1e3a17f..677757e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -813,7 +813,8 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        value = super()._evalf(subs)
+        return value if isinstance(value, Symbol) else value._evalf({})
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 0fc8c40efede559c32deee0e229bd7cb68d7082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 08/54] fix: log() overwrote the fields of an existing log when
 it simplified to one

---
 src/simpy/expr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 677757e..886f54f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1622,11 +1622,14 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        # The fields are set here and not in __init__, because python also runs __init__ when
+        # an already existing log gets returned above.
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From 59482e8e63cd92b6f19f352569b9039653245cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 09/54] fix: the derivative of an absolute value had the wrong
 sign where its argument is negative

---
 src/simpy/expr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 886f54f..bec8d3a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -15,7 +15,6 @@ so I don't really mind the lack of float support, but I can see why you'd be ann
 import inspect
 import itertools
 import math
-import warnings
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, fields
 from fractions import Fraction
@@ -1634,7 +1633,9 @@ class log(Expr):
 
     def diff(self, var) -> Expr:
         if self.base == e:
-            return self.inner.diff(var) / self.inner
+            # (ln|u|)' = u'/u
+            inner = self.inner.inner if isinstance(self.inner, Abs) else self.inner
+            return inner.diff(var) / inner
         return (log(self.inner) / log(self.base)).diff(var)
 
     def _evalf(self, subs: Dict[str, "Expr"]):
@@ -2064,8 +2065,7 @@ class Abs(SingleFunc):
         return super().__new__(cls)
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        return self.inner / self * self.inner.diff(var)
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From 04b5a74d78cb3efd5e077eb155ec4d403a1d5390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/54] fix: repr printed x^(1/y) as x^1/y, the same as x/y

---
 src/simpy/expr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index bec8d3a..a5dc30b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1386,7 +1386,11 @@ class Power(Expr):
         if self.exponent == Rat(1, 2):
             return _repr(self.base, "sqrt")
 
-        return f"{_term_repr(self.base)}^{_term_repr(self.exponent)}"
+        exponent = _term_repr(self.exponent)
+        if exponent.startswith("1/"):
+            # x^(1/y) is not (x^1)/y
+            exponent = "(" + exponent + ")"
+        return f"{_term_repr(self.base)}^{exponent}"
 
     def latex(self) -> str:
         from .latex import bracketfy, group
-- 
2.43.0


From 53e254728f99194929ee22c0bb9ac60d1a33d0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 11/54] fix: dividing by a Float zero raised ZeroDivisionError
 instead of giving inf

---
 src/simpy/expr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index a5dc30b..21ee60d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -750,15 +750,15 @@ def _integer_power(n: int, x: Fraction) -> Optional[int]:
 
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
+    if b == 0 and x < 0:
+        # Division by zero.
+        return inf
+
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
         return Const(b.value**x.value)
 
     if b == 0:
-        if x > 0:
-            return Rat(0)
-        else:
-            # Division by zero.
-            return inf
+        return Rat(0)
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-- 
2.43.0


From 3d3ce9410a922723a74bada0fae0d808f4c3412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 12/54] fix: the derivative of asin(1) and acos(1) was nan
 instead of 0

---
 src/simpy/expr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 21ee60d..c2a30f5 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2004,6 +2004,9 @@ class asin(TrigFunction):
     _func = math.asin
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            # asin(1) and the like: the factor below would be infinite
+            return Rat(0)
         return 1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
@@ -2017,6 +2020,9 @@ class acos(TrigFunction):
     _func = math.acos
 
     def diff(self, var):
+        if not self.inner.contains(var):
+            # acos(1) and the like: the factor below would be infinite
+            return Rat(0)
         return -1 / sqrt(1 - self.inner**2) * self.inner.diff(var)
 
     @classproperty
-- 
2.43.0


From 719f9a297716a1e417f217d7f17d2ed221d22182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 13/54] fix: simplify crashed on sums of even powers of sec and
 tan

---
 src/simpy/simplify/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..854dc7b 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -342,16 +342,15 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From 2837bc68f182d9e6ac06dbf9b360b5b72be5c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 14/54] fix: expanding or simplifying a logarithm turned its
 base into e

---
 src/simpy/expr.py              |  4 ++--
 src/simpy/simplify/simplify.py | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c2a30f5..9bdd310 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1593,8 +1593,8 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        return log(*[c.expand() if c.expandable() else c for c in self.children()])
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 854dc7b..d3f85e0 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -32,30 +32,30 @@ def expand_logs(expr: Expr, **kwargs) -> Expr:
 def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
-    inner = expr.inner
+    inner, base = expr.inner, expr.base
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log(t, base) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log(t, base) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log(abs(term), base) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log(abs(term), base) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From 9a04207db727caf450712f9cae29165ea9ad1bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 15/54] fix: matching a sum up to a factor asserted when its
 first matches contradicted each other

---
 src/simpy/regex.py | 41 ++++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..07b0b8a 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -138,29 +138,24 @@ _qmatches = Dict[str, Dict[str, Matches]]
 
 
 def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
-    final = defaultdict(list)
-    accounted_expr_terms = []
-
-    # We need to make sure every query term has a match.
-    for query_term_repr, query_term_values in query_matches.items():
-        has_match = False
-        for expr_term_repr, matches in query_term_values.items():
-            if all(
-                any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
-                for query_term_values2 in query_matches.values()
-            ):
-                join_dicts(final, matches)
-                accounted_expr_terms.append(expr_term_repr)
-                has_match = True
-                break  # this might cause trouble down the line that we're just matching the first one :/
-                # what if there are multiple expr terms that match the query? i dunno actually wtv this is fine wtv.
-
-        if not has_match:
-            return {"success": False}
-
-    assert all(all_same(v) for v in final.values())
-    final = {k: v[0] for k, v in final.items()}
-    assert all(any(_matches_eq(x, final) for x in y.values()) for y in query_matches.values())
+    query_terms = list(query_matches.values())
+
+    # We need to make sure every query term has a match, and that those matches don't contradict each other.
+    def _search(i: int, final: Matches, accounted_expr_terms: List[str]) -> Optional[Tuple[Matches, List[str]]]:
+        if i == len(query_terms):
+            return final, accounted_expr_terms
+        for expr_term_repr, matches in query_terms[i].items():
+            if expr_term_repr in accounted_expr_terms or not _matches_eq(final, matches):
+                continue
+            found = _search(i + 1, {**final, **matches}, accounted_expr_terms + [expr_term_repr])
+            if found is not None:
+                return found
+        return None
+
+    found = _search(0, {}, [])
+    if found is None:
+        return {"success": False}
+    final, accounted_expr_terms = found
 
     rest = Sum([t for t in expr.terms if repr(t) not in accounted_expr_terms])
     return {"matches": final, "rest": rest, "success": True}
-- 
2.43.0


From 7f4d28feb8aa2132fe239a7bf7e7f21f2561dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 16/54] fix: simplify used one term of a sum for two different
 sin^2 + cos^2 pairs

---
 src/simpy/simplify/simplify.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index d3f85e0..6cfed3d 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -96,18 +96,23 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
                 return f.base.inner, term / f
         return None
 
-    def sin_cos_condition(expr: Sum):
-        # make sure that a*cos^2(...) and a*sin^2(...) are both terms of this sum
-        # with an optional factor that may or may not be there of a
-        s = [is_thing_squared(term, sin) for term in expr.terms]
-        c = [is_thing_squared(term, cos) for term in expr.terms]
-        return [el for el in s if el is not None and el in c]
-
-    both_inners = sin_cos_condition(sum)
-    if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
-        return Sum(new_terms)
+    # find the pairs of terms a*sin^2(...) and a*cos^2(...), with an optional factor a.
+    # a term can only be part of one pair.
+    s = [is_thing_squared(term, sin) for term in sum.terms]
+    c = [is_thing_squared(term, cos) for term in sum.terms]
+    paired = set()
+    factors = []
+    for i, el in enumerate(s):
+        if el is None or i in paired:
+            continue
+        for j, other in enumerate(c):
+            if j not in paired and other == el:
+                paired.update((i, j))
+                factors.append(el[1])
+                break
+
+    if factors:
+        return Sum([t for i, t in enumerate(sum.terms) if i not in paired] + factors)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
     # - for this case: what if there is a constant (or variable) common factor?
-- 
2.43.0


From f73c77d019006852d23e94610b23ea8d10f59c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 17/54] fix: product-to-sum dropped factors of products with
 three or more terms and crashed on others

---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From 76e4eeaf13ee110b03ac0ced250b4842aee3f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 18/54] fix: infinities and floats had no nesting (integrating
 1/(x + 1)^2 raised TypeError)

---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9bdd310..0c188e1 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -478,6 +478,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        self.__post_init__()
 
     def latex(self):
         return repr(self)
@@ -654,7 +655,7 @@ class Infinity(Num, Expr):
     value = float("inf")
 
     def __init__(self):
-        pass
+        self.__post_init__()
 
     def latex(self) -> str:
         return "\\infty"
@@ -673,7 +674,7 @@ class NegInfinity(Num, Expr):
     value = float("-inf")
 
     def __init__(self):
-        pass
+        self.__post_init__()
 
     def latex(self) -> str:
         return "-\\infty"
@@ -692,7 +693,7 @@ class NaN(Num, Expr):
     value = float("NaN")
 
     def __init__(self):
-        pass
+        self.__post_init__()
 
     def latex(self):
         return NotImplemented
-- 
2.43.0


From f6bc98be493b7aa7eee7915dd647430057014013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 19/54] fix: partial fractions crashed on denominators whose
 factors aren't both linear

---
 src/simpy/transforms.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..99fd790 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -912,8 +912,16 @@ class PartialFractions(Transform):
         if not (d1.contains(node.var) and d2.contains(node.var)):
             return False
 
-        d1_list = to_const_polynomial(d1, node.var)
-        d2_list = to_const_polynomial(d2, node.var)
+        try:
+            d1_list = to_const_polynomial(d1, node.var)
+            d2_list = to_const_polynomial(d2, node.var)
+        except AssertionError:
+            # the denominator is a polynomial but its factors aren't, ex: sqrt(x) * x^(3/2)
+            return False
+
+        # the 2x2 system below is for linear factors only.
+        if d1_list.size != 2 or d2_list.size != 2:
+            return False
 
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
-- 
2.43.0


From a1baeeddf2189eb142f9377f1a9986f73628e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 20/54] fix: completing the square divided by zero on perfect
 squares (integrals came out as inf*x or lost factors)

---
 src/simpy/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 99fd790..0072412 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -1020,6 +1020,9 @@ class CompleteTheSquare(Transform):
             normalized = poly / norm_factor
             const = normalized[1] / 2
             diff = normalized[0] - const**2
+            if diff == 0:
+                # already a perfect square
+                return (node.var + const) ** 2 * norm_factor
             new_expr = (((node.var + const) / sqrt(diff)) ** 2 + 1) * diff * norm_factor
 
             return new_expr
-- 
2.43.0


From 4f7895b325971850c12a5e7cac118640c2f80eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 21/54] fix: integration by parts going in a circle with factor
 1 answered nan, or raised ValueError

---
 src/simpy/transforms.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 0072412..af61713 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -734,10 +734,15 @@ class ByParts(Transform):
 
         # check for more layers above -- if any of the integrands is the same, factor = 1 and it's a nogo.
         # honestly this is a bit sad; why don't we just always check that a node doesn't appear in its parents?
-        byparts_parents = ByParts._get_all_byparts_parents(node)
-        old_byparts_integrands = [node.expr for node in byparts_parents]
-        if integrand2 in old_byparts_integrands:
-            return False
+        parent_byparts = ByParts._get_last_byparts_parent(node)
+        first_factor = ByParts._get_first_factor(parent_byparts, node) if parent_byparts else None
+        for p in ByParts._get_all_byparts_parents(node):
+            if p is parent_byparts and first_factor is not None:
+                # here we know the constants that were pulled out on the way, so we know the actual factor.
+                if first_factor * integrand2 / p.expr == 1:
+                    return False
+            elif integrand2 == p.expr:
+                return False
         return True
 
     def __init__(self):
@@ -780,12 +785,15 @@ class ByParts(Transform):
         return _check(a, b) or _check(b, a)
 
     @staticmethod
-    def _get_first_factor(parent_byparts: Node, node: Node) -> Expr:
-        if parent_byparts.children[1] == node:
-            return Rat(1)
-        elif isinstance(node.transform, PullConstant) and parent_byparts.children[1].child == node:
-            return node.transform._constant
-        raise ValueError
+    def _get_first_factor(parent_byparts: Node, node: Node) -> Optional[Expr]:
+        """Returns c if what's left to integrate after `parent_byparts` is c * node.expr, None if it's anything else."""
+        factor = Rat(1)
+        while node is not parent_byparts.children[1]:
+            if not isinstance(node.transform, PullConstant):
+                return None
+            factor *= node.transform._constant
+            node = node.parent
+        return factor
 
     def forward(self, node: Node) -> None:
         # This is tricky bc you have 2 layers of children here.
@@ -819,10 +827,10 @@ class ByParts(Transform):
             ### special case: when parent is same as you 2 layers above
             # this isnt the most elegant but it works lol
             parent_byparts = self._get_last_byparts_parent(node)
-            if parent_byparts:
+            first_factor = self._get_first_factor(parent_byparts, node) if parent_byparts else None
+            if first_factor is not None:
                 second_factor = integrand2 / parent_byparts.expr
                 if not second_factor.contains(node.var):
-                    first_factor = self._get_first_factor(parent_byparts, node)
                     factor = first_factor * second_factor
                     other_uv = parent_byparts.child
                     other_uv.solution /= 1 - factor  # mutating is sus
-- 
2.43.0


From d70e8ba516f1b571167b2c4635183f737d623a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 22/54] fix: circular terms were left out of sums and of
 integration by parts, giving wrong integrals

---
 src/simpy/transforms.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index af61713..c9f052b 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -78,11 +78,15 @@ class Node:
     def children(self) -> List["Node"]:
         return self._children
 
+    def repeats_a_parent(self, child: "Node") -> bool:
+        """whether `child` is the same integral as this node or one of its parents"""
+        if child.is_filler:
+            return False
+        return any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in _parents(self))
+
     def add_child(self, child: "Node") -> None:
-        if not child.is_filler:
-            parents = _parents(self)
-            if any(eq_with_var((p.expr, p.var), (child.expr, child.var)) for p in parents):
-                return
+        if self.repeats_a_parent(child):
+            return
         self.children.append(child)
 
     def add_children(self, children: List["Node"]) -> None:
@@ -338,8 +342,12 @@ class Additivity(SafeTransform):
     """Additivity of integrals"""
 
     def forward(self, node: Node):
+        children = [Node(e, node.var, self, node) for e in node.expr.terms]
+        # leaving out just one of the terms would solve a different integral.
+        if any(node.repeats_a_parent(child) for child in children):
+            return
         node.type = "AND"
-        node.add_children([Node(e, node.var, self, node) for e in node.expr.terms])
+        node.add_children(children)
 
     def check(self, node: Node) -> bool:
         if super().check(node) is False:
@@ -852,6 +860,10 @@ class ByParts(Transform):
             ###
 
             funky_node = Node(node.expr, node.var, tr, node, type="AND", is_filler=True)
+            remaining = Node(integrand2, node.var, Additivity(), funky_node)
+            if funky_node.repeats_a_parent(remaining):
+                # uv alone isn't the answer.
+                continue
             funky_node.add_children(
                 [
                     Node(
@@ -863,7 +875,7 @@ class ByParts(Transform):
                         solution=child1,
                         is_filler=True,
                     ),
-                    Node(integrand2, node.var, Additivity(), funky_node),
+                    remaining,
                 ]
             )
             node.add_child(funky_node)
-- 
2.43.0


From 1e6a446d4c20268aa4389ea14b9f93b4c502dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 23/54] fix: substituting u = sin or cos back into sqrt(1 -
 u^2) lost its sign where it's negative

---
 src/simpy/transforms.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c9f052b..c6beea4 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -434,6 +434,17 @@ class TrigUSub2(USub):
 
         return False
 
+    def backward(self, node: Node) -> None:
+        # sqrt(1 - u^2) stands for the derivative of u that we divided by: cos(x) if u = sin(x), sin(x) if u = cos(x).
+        # substituting u in would turn it into the absolute value of that.
+        if node.solution and self._key in ("sin", "cos"):
+            other = {"sin": cos, "cos": sin}[self._key](node.parent.var)
+            node.solution = replace_factory(
+                lambda e: isinstance(e, Power) and e.base == 1 - node.var**2 and isinstance(e.exponent, Rat),
+                lambda e: other ** (2 * e.exponent),
+            )(node.solution)
+        super().backward(node)
+
 
 class RewriteTrig(Transform):
     """Rewrites trig functions in terms of (sin, cos), (tan, sec), and (cot, csc)"""
-- 
2.43.0


From 2b3dd6cf14aa3c50232f8c29c3a424342c3b0be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 24/54] fix: placeholder nodes of integration by parts were
 transformed as if they were integrals

---
 src/simpy/integration.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..9fbfc2e 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -301,11 +301,12 @@ def _integrate_safely(node: Node):
     """Applies all possible safe transforms to a node..
     If a safe transform is applied, we keep applying safe transforms to the new children.
     """
-    for transform in SAFE_TRANSFORMS:
-        tr = transform()
-        if tr.check(node):
-            tr.forward(node)
-            break
+    if not node.is_filler:  # the expr of a filler isn't what it stands for.
+        for transform in SAFE_TRANSFORMS:
+            tr = transform()
+            if tr.check(node):
+                tr.forward(node)
+                break
     for child in node.children:
         _integrate_safely(child)
 
-- 
2.43.0


From 22f0ccabb61f3301db86dd38118bf3543014ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 25/54] fix: linear substitution left the old variable behind
 when it appeared in different powers

---
 src/simpy/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index c6beea4..728f381 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -652,8 +652,8 @@ class LinearUSub(USub):
             result = _is_a_linear_sum_or_prod(e)
             if result is not None:
                 u, u_inverse = result
-                if self._u is not None:
-                    return u == self._u
+                if self._u is not None and u != self._u:
+                    return False
                 self._u = u
 
                 # If u_inverse exists, set it.
-- 
2.43.0


From 6b5ee42bd36d2597336e27cd382e95951cdeecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 26/54] fix: factoring a sum with float coefficients raised
 AttributeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0c188e1..d385bfb 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1020,7 +1020,7 @@ class Sum(Associative, Expr):
         for c in coeffs[1:]:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            if isinstance(x, Rat) and (x.value.denominator == 1 or y.value.denominator == 1):
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From 2049671c636a204fd92f78f3b68cba264bc50701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:34 +0000
Subject: [PATCH 27/54] fix: completing the square took the square root of a
 perfect square without its absolute value

---
 src/simpy/transforms.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index 728f381..76d986c 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -1005,6 +1005,10 @@ class GenericUSub(USub):
         self._u = self._u
 
 
+def _is_perfect_square(poly: Polynomial) -> bool:
+    return poly.size == 3 and poly[1] ** 2 == 4 * poly[0] * poly[2]
+
+
 class CompleteTheSquare(Transform):
     """Integration via completing the square"""
 
@@ -1029,6 +1033,8 @@ class CompleteTheSquare(Transform):
 
             # hmm completing the square could work on non-quadratics in some cases no?
             # but I'll just limit it to quadratics for now
+            if expr.exponent != -1 and _is_perfect_square(poly):
+                return False
             return poly.size == 3 and poly[1] != 0
             # poly[1] = 0 implies that there's no bx term
             # which means that there's no square to complete.
@@ -1038,14 +1044,20 @@ class CompleteTheSquare(Transform):
 
     def forward(self, node: Node) -> None:
         # replace all quadratics with their completed-the-square form
+        def is_integer_power(expr: Expr) -> bool:
+            return isinstance(expr, Power) and isinstance(expr.exponent, Rat) and expr.exponent.value.denominator == 1
+
         def condition(expr: Expr) -> bool:
             try:
-                poly = to_const_polynomial(expr, node.var)
+                poly = to_const_polynomial(expr.base if is_integer_power(expr) else expr, node.var)
             except AssertionError:
                 return False
-            return poly.size == 3
+            # (x^2 + 2x + 1)^n is only (x + 1)^2n if n is an integer, a root of it is |x + 1|.
+            return poly.size == 3 and (is_integer_power(expr) or not _is_perfect_square(poly))
 
         def perform(expr: Expr) -> Expr:
+            if is_integer_power(expr):
+                return perform(expr.base) ** expr.exponent
             poly = to_const_polynomial(expr, node.var)
             norm_factor = poly[-1]
             normalized = poly / norm_factor
-- 
2.43.0


From 420e62ad22580664ce93f99c07786a96e76b1463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 28/54] fix: repr of a function of a product of sums printed
 f(a)*(b) for f((a)*(b))

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d385bfb..7dcec92 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1565,7 +1565,8 @@ class SingleFunc(Expr):
 
 def _repr(inner: Expr, label: str) -> str:
     inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
+    # "(a)" is already in brackets, "(a)/(b)" isn't.
+    if inner_repr[0] == "(" and inner_repr.find(")") == len(inner_repr) - 1:
         return f"{label}{inner_repr}"
     return f"{label}({inner_repr})"
 
-- 
2.43.0


From d6301ad4a9f4a49de2f914d3fdb3e9c055007b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 29/54] fix: the root of a negative float raised AssertionError

---
 src/simpy/expr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 7dcec92..9281fef 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -756,7 +756,10 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
         return inf
 
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
-        return Const(b.value**x.value)
+        value = b.value**x.value
+        if isinstance(value, complex):
+            return  # the root of a negative number stays as it is.
+        return Const(value)
 
     if b == 0:
         return Rat(0)
-- 
2.43.0


From 42b4a0c53d15a5c9cde8fce784b0cd7b122f9c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 30/54] fix: a product with a negative float coefficient didn't
 count as a subtraction (integrals took roots of it)

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9281fef..4901e56 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1287,7 +1287,7 @@ class Prod(Associative, Expr):
 
     @property
     def is_subtraction(self):
-        return isinstance(self.terms[0], Rat) and self.terms[0] < 0
+        return isinstance(self.terms[0], (Rat, Float)) and self.terms[0] < 0
 
     def _expandable(self) -> bool:
         # a product is expandable if it contains any sums in the numerator
-- 
2.43.0


From 33047979691b5266b77447e151e0f20c327e3da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 31/54] fix: diff returned a ValueError instead of raising it,
 and required the variable it documents as optional

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 4901e56..52bda5c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2107,7 +2107,7 @@ def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
 
 
 @cast
-def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
+def diff(expr: Expr, var: Optional[Symbol] = None) -> Expr:
     """Takes the derivative of expr relative to var. If expr has only one symbol in it, var doesn't need to be specified."""
     if not hasattr(expr, "diff"):
         raise NotImplementedError(f"Differentiation of {expr} not implemented")
@@ -2115,7 +2115,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 4b6cc55fbedfc1f9fa9c87ea8228071ab139a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:54 +0000
Subject: [PATCH 32/54] fix: printing a negative multiple of a root of -1
 raised ValueError

---
 src/simpy/expr.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 52bda5c..84ec10b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1204,6 +1204,15 @@ class Prod(Associative, Expr):
         # terms are already set in __new__
         super().__post_init__()
 
+    @property
+    def _negated(self) -> Expr:
+        """A subtraction without its sign.
+
+        Multiplying by -1 doesn't do, because -1 is also merged with powers of -1 like sqrt(-1).
+        """
+        coeff = -self.terms[0]
+        return Prod(([] if coeff == 1 else [coeff]) + self.terms[1:], skip_checks=True)
+
     def __repr__(self) -> str:
         def _term_repr(term):
             if isinstance(term, Sum) or islongsymbol(term):
@@ -1212,7 +1221,7 @@ class Prod(Associative, Expr):
 
         # special case for subtraction:
         if self.is_subtraction:
-            new_prod = self * -1
+            new_prod = self._negated
             if not isinstance(new_prod, Prod):
                 return f"-{_term_repr(new_prod)}"
             if new_prod.is_subtraction:
@@ -1244,7 +1253,7 @@ class Prod(Associative, Expr):
 
         # special case for subtraction:
         if self.is_subtraction:
-            new = self * -1
+            new = self._negated
             if not isinstance(new, Prod):
                 return "-" + _term_latex(new)
             return "-" + new.latex()
-- 
2.43.0


From ab01527337ea7c7d653a015be37fa52d1f0dc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 33/54] fix: even roots of negative fractions were replaced by
 the root of the reciprocal, which has the other sign

---
 src/simpy/expr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 84ec10b..00007ac 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -774,16 +774,17 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
             else:
                 return Rat(den, num)
 
+        if x.value.denominator % 2 == 0 and b < 0:
+            # Cannot be simplified further. (Not even to the reciprocal: 1/sqrt(-1/3) is -sqrt(-3))
+            return
+
         # Rewriting for consistency between same values.
         if b.value.numerator == 1:
             return Power(b.reciprocal(), -x)
         elif b.value.denominator != 1 and x < 0:
             return Power(b.reciprocal(), -x)
 
-        if x.value.denominator % 2 == 0 and b < 0:
-            # Cannot be simplified further.
-            return
-        elif b < 0:
+        if b < 0:
             return -1 * Power(-b, x)
 
         ans = None
-- 
2.43.0


From 3fccedcadcd506d001b66027150e5a829fc682b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 34/54] fix: a singular matrix with a determinant that only
 expands to zero was inverted

---
 src/simpy/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/linalg.py b/src/simpy/linalg.py
index 58f43e5..038f2b7 100644
--- a/src/simpy/linalg.py
+++ b/src/simpy/linalg.py
@@ -15,7 +15,7 @@ def invert(matrix: np.ndarray):
 
     a, b, c, d = matrix[0, 0], matrix[0, 1], matrix[1, 0], matrix[1, 1]
     det = a * d - b * c
-    if det == 0:
+    if det == 0 or det.expandable() and det.expand() == 0:
         return None
 
     return np.array([[d / det, -b / det], [-c / det, a / det]])
-- 
2.43.0


From 6aa16f51517bb5f3bb84f56f5d8bed70d2e10668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 35/54] fix: numeric evaluation of sec, csc and cot raised
 TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 00007ac..9d834b2 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1849,7 +1849,7 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            return Float(self.__class__._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From 01ac0af31e88ffc35197a7bb8bcd5fc2592257ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 36/54] fix: factoring -1 and a reciprocal sum out of a sum
 left the sum in all terms

---
 src/simpy/expr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9d834b2..568a52a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1043,9 +1043,13 @@ class Sum(Associative, Expr):
             common_expr *= common_coeff
 
         # factor out the common factors
+        # (one by one, because -(x + 1) as a whole is turned into -x - 1, which doesn't cancel anymore)
+        inverse = [Power(t[0], -t[1] if t[2] else t[1]) for t in common_factors]
+        if common_coeff:
+            inverse.append(1 / common_coeff)
         new_terms = []
         for term in self.terms:
-            new_terms.append(term / common_expr)
+            new_terms.append(Prod([term] + inverse))
 
         return common_expr * Sum(new_terms)
 
-- 
2.43.0


From 96102b4c6ee91eaffd0258460e04efbaaf9ebab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 37/54] fix: a decimal equal to e compared equal to it in one
 direction only

---
 src/simpy/expr.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 568a52a..e166b54 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -647,9 +647,6 @@ class E(Num, Expr):
     def latex(self) -> str:
         return "e"
 
-    def __eq__(self, other) -> bool:
-        return isinstance(other, E)
-
 
 class Infinity(Num, Expr):
     value = float("inf")
-- 
2.43.0


From 4db9c07e0eef1ba7b2e7b61f7df3012acfbf74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:47 +0000
Subject: [PATCH 38/54] fix: comparing expressions up to a variable failed when
 renaming reorders the terms

---
 src/simpy/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/simpy/utils.py b/src/simpy/utils.py
index 5308dd3..fdc71a3 100644
--- a/src/simpy/utils.py
+++ b/src/simpy/utils.py
@@ -2,7 +2,7 @@ import random
 import string
 from typing import Callable, Optional, Tuple
 
-from .expr import Expr, Symbol
+from .expr import Expr, Prod, Sum, Symbol
 
 ExprFn = Callable[[Expr], Expr]
 OptionalExprFn = Callable[[Expr], Optional[Expr]]
@@ -39,6 +39,15 @@ def eq_with_var(a: Tuple[Expr, Symbol], b: Tuple[Expr, Symbol]) -> bool:
             return e1 == e2
         if len(c1) != len(c2):
             return False
+        if isinstance(e1, (Sum, Prod)):
+            # The order of the terms depends on the variables' names.
+            rest = list(c2)
+            for x in c1:
+                i = next((i for i, y in enumerate(rest) if _recursive_call(x, y)), None)
+                if i is None:
+                    return False
+                rest.pop(i)
+            return True
         return all(_recursive_call(x, y) for x, y in zip(c1, c2))
 
     return _recursive_call(a_expr, b_expr)
-- 
2.43.0


From b18f244968b800f97a83cedc3637be740aba1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:26 +0000
Subject: [PATCH 39/54] fix: matching part of a sum crashed when a
 placeholder's name occurs in a term

---
 src/simpy/regex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index 07b0b8a..a71d586 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -208,7 +208,9 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(any(_matches_eq(x, anyfinds) for x in y) for y in query_matches.values()):
+                        if is_eq and all(
+                            any(_matches_eq(x, anyfinds) for x in y.values()) for y in query_matches.values()
+                        ):
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From 8ef853a9c10ad0a328bc7d603b29504e88dfb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:48 +0000
Subject: [PATCH 40/54] fix: matching part of a sum must keep every alternative
 for a placeholder

---
 src/simpy/regex.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index a71d586..f1d658c 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -208,9 +208,7 @@ class Eq:
                     for expr_term in expr.terms:
                         output = Eq(expr_term, query_term, decompose_singles=False)()
                         is_eq, anyfinds = output.get("success"), output.get("matches")
-                        if is_eq and all(
-                            any(_matches_eq(x, anyfinds) for x in y.values()) for y in query_matches.values()
-                        ):
+                        if is_eq:
                             query_matches[repr(query_term)][repr(expr_term)] = anyfinds
 
                     if len(query_matches[repr(query_term)]) == 0:
-- 
2.43.0


From 89d4a56cd291f0e89dbc7f1ef72d67ede05fd180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 41/54] fix: the printed form of a negative decimal's power
 lost the base's brackets

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index e166b54..ce23ebc 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1101,7 +1101,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: (isinstance(x, Rat) and x.value.denominator != 1) or (isinstance(x, (Rat, Float)) and x < 0)
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From 02db401f1a438cb819b8a6362f64046ee0040572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 42/54] fix: logarithms and trigonometric functions of infinity
 stayed as they are and cancelled out like finite terms

---
 src/simpy/expr.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index ce23ebc..bf44dab 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1635,6 +1635,11 @@ class log(Expr):
             return Rat(1)
         if isinstance(inner, Power) and inner.base == base:
             return inner.exponent
+        if inner.has(Infinity) or inner.has(NegInfinity):
+            # Like sin(inf), it can't stay: infinities that look the same don't cancel out.
+            if inner == inf and isinstance(base, Num) and base > 0 and base < inf:
+                return inf if base > 1 else -inf
+            return Const(math.nan)
         if isinstance(inner, Float):
             if base == e:
                 return Float(math.log(inner.value))
@@ -1806,6 +1811,12 @@ class TrigFunction(SingleFunc, ABC):
                             instance.inner = inner - t
                             return instance
 
+        if inner.has(Infinity) or inner.has(NegInfinity):
+            # It can't stay: infinities that look the same don't cancel out.
+            if cls is atan and isinstance(inner, (Infinity, NegInfinity)):
+                return pi / 2 if inner > 0 else -pi / 2
+            return Const(math.nan)
+
         # 2. Check if inner is trigfunction
         # things like sin(cos(x)) cannot be more simplified.
         if isinstance(inner, TrigFunction) and inner.is_inverse != cls.is_inverse:
-- 
2.43.0


From 568f876d00b8e6eeb2c2d11077b994c5b84d15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 43/54] fix: infinity times, plus or to the power of a constant
 like pi stayed unevaluated and cancelled out like a finite term

---
 src/simpy/expr.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index bf44dab..d5468fa 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -880,6 +880,11 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
     # accumulate all constants
     if consts:
         const = accumulate(*consts)
+        if isinstance(const, (Infinity, NegInfinity)):
+            # finite constants make no difference to infinity
+            non_constant_terms = [
+                t for t in non_constant_terms if not (_is_positive_constant(t) or _is_positive_constant(-t))
+            ]
         if const != 0:
             non_constant_terms.append(const)
 
@@ -1157,6 +1162,9 @@ def _combine_like_terms(initial_terms: List[Expr]) -> List[Expr]:
         coeff = accumulate(*consts, type_="prod")
         if coeff == 0:
             return [coeff]
+        if isinstance(coeff, (Infinity, NegInfinity)):
+            # positive constants make no difference to infinity
+            non_constant_terms = [t for t in non_constant_terms if not _is_positive_constant(t)]
         if coeff != 1:
             non_constant_terms.append(coeff)
     return non_constant_terms
@@ -1482,6 +1490,8 @@ class Power(Expr):
                 return inf
             if x == -inf:
                 return Rat(0)
+        if isinstance(b, Infinity) and (_is_positive_constant(x) or _is_positive_constant(-x)):
+            return inf if _is_positive_constant(x) else Rat(0)
 
         return default_return
 
@@ -2122,6 +2132,11 @@ def _is_strictly_positive(expr: Expr) -> bool:
     return False
 
 
+def _is_positive_constant(expr: Expr) -> bool:
+    """Is this a positive, finite number, like 2*pi or sqrt(3)?"""
+    return not expr.symbols() and expr != 0 and not expr.has(Infinity) and _is_strictly_positive(expr)
+
+
 def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
     """Creates symbols from a string of symbol names seperated by spaces."""
     symbols = [Symbol(name=s) for s in symbols.split(" ")]
-- 
2.43.0


From dd9473b37c810571419514980cb9f5453ef640cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:13 +0000
Subject: [PATCH 44/54] fix: powers that have no sign, like sqrt(-inf) and
 (-2)^inf, were infinite or 1

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d5468fa..eab5b5b 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -754,6 +754,10 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
         value = b.value**x.value
+        if b < 0 and value != 0 and value == value:
+            # floats give these a sign, but neither (-2)^inf nor sqrt(-inf) has one
+            if isinstance(x, (Infinity, NegInfinity)) or isinstance(b, NegInfinity) and not x.is_int:
+                return Const(math.nan)
         if isinstance(value, complex):
             return  # the root of a negative number stays as it is.
         return Const(value)
-- 
2.43.0


From a5afd97921d6579fea648acf83beec6dc5710694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 45/54] fix: infinity combined with numbers that floats cannot
 hold raised OverflowError or was 1

---
 src/simpy/expr.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index eab5b5b..3f8948c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -721,10 +721,26 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
 
     if len(consts) == 1:
         return consts[0]
+    if any(isinstance(c, (Infinity, NegInfinity)) for c in consts):
+        return Const(operation(_value_next_to_infinity(c) for c in consts))
     else:
         return Const(operation(c.value for c in consts))
 
 
+def _value_next_to_infinity(c: Accumulateable) -> Union[Fraction, float]:
+    """A small number that gives the same as c when combined with infinity.
+
+    All that counts is on which side of -1, 0 and 1 it is, and whether it's odd. Floats lose that for large
+    numbers, tiny ones and those close to 1.
+    """
+    if not isinstance(c, Rat):
+        return c.value
+    value = c.value
+    if c.is_int:
+        return value if abs(value) <= 1 else c.sign * (2 + value % 2)
+    return c.sign * (Fraction(5, 2) if abs(value) > 1 else Fraction(1, 2))
+
+
 def _integer_power(n: int, x: Fraction) -> Optional[int]:
     """n**x for a positive exponent x, if that's exactly an integer. Otherwise None.
 
@@ -753,7 +769,12 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
         return inf
 
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
-        value = b.value**x.value
+        if isinstance(b, (Infinity, NegInfinity)) or isinstance(x, (Infinity, NegInfinity)):
+            value = _value_next_to_infinity(b) ** _value_next_to_infinity(x)
+            if value == 0:
+                return Rat(0)  # exactly, like reciprocal()
+        else:
+            value = b.value**x.value
         if b < 0 and value != 0 and value == value:
             # floats give these a sign, but neither (-2)^inf nor sqrt(-inf) has one
             if isinstance(x, (Infinity, NegInfinity)) or isinstance(b, NegInfinity) and not x.is_int:
-- 
2.43.0


From 9515ca24569402d310c4078ad2ce6844452b6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 46/54] fix: printing a search's tree with solutions crashed on
 solved nodes of unsolved parents

---
 src/simpy/debug/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simpy/debug/tree.py b/src/simpy/debug/tree.py
index 85e7887..a4b1d0f 100644
--- a/src/simpy/debug/tree.py
+++ b/src/simpy/debug/tree.py
@@ -57,7 +57,9 @@ def print_tree(root: Node, show_stale=True, show_failures=True, show_solution=Fa
         return string + spaces
 
     repr_expr = _wrap(repr_expr, 50)
-    solution = _wrap(repr(_exprify(root.solution)), 50) if (show_solution and root.is_solved) else ""
+    # a solved node has no solution when its parents weren't solved, or were solved in another way
+    has_solution = root.is_solved and root.solution is not None
+    solution = _wrap(repr(_exprify(root.solution)), 50) if (show_solution and has_solution) else ""
     distance = _wrap(f"[{root.distance_from_root}]", 4)
 
     func(f"{distance} {n} {repr_expr}  {solution}  ({root.transform.__class__.__name__}){x}{varchange}{ending}")
-- 
2.43.0


From f91213e0f293804190f405b41813e1e1a98bdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:54 +0000
Subject: [PATCH 47/54] fix: debug_repr showed only the outermost node
 pedantically

---
 src/simpy/debug/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/debug/utils.py b/src/simpy/debug/utils.py
index ed26620..f52fc81 100644
--- a/src/simpy/debug/utils.py
+++ b/src/simpy/debug/utils.py
@@ -9,13 +9,13 @@ def debug_repr(expr: Expr, *, pedantic: Literal["always", "moderate"] = "moderat
     pedantic = "always" will show the non-children classes of numbers and symbols
     """
     if isinstance(expr, Power):
-        return f"Power({debug_repr(expr.base)}, {debug_repr(expr.exponent)})"
+        return f"Power({debug_repr(expr.base, pedantic=pedantic)}, {debug_repr(expr.exponent, pedantic=pedantic)})"
         # return f'({debug_repr(expr.base)})^{debug_repr(expr.exponent)}'
     if isinstance(expr, Prod):
-        return "Prod(" + ", ".join([debug_repr(t) for t in expr.terms]) + ")"
+        return "Prod(" + ", ".join([debug_repr(t, pedantic=pedantic) for t in expr.terms]) + ")"
         # return " * ".join([debug_repr(t) for t in expr.terms])
     if isinstance(expr, Sum):
-        return "Sum(" + ", ".join([debug_repr(t) for t in expr.terms]) + ")"
+        return "Sum(" + ", ".join([debug_repr(t, pedantic=pedantic) for t in expr.terms]) + ")"
         # return " + ".join([debug_repr(t) for t in expr.terms])
 
     if pedantic == "always":
-- 
2.43.0


From 804c16e602f620424e906a7a2bb95648cce4086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:46 +0000
Subject: [PATCH 48/54] fix: remove_const_factor could be interrupted with only
 one of its two results in place

---
 src/simpy/expr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 3f8948c..04be14a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2196,8 +2196,9 @@ def remove_const_factor(expr: Expr, include_factor=False) -> Expr:
                 else:
                     const.append(t)
 
-            expr._sans_const_cache = Prod(sans_const, skip_checks=True)
+            # `_sans_const_cache` goes last: its presence says that both are there.
             expr._const_cache = Prod(const, skip_checks=True)
+            expr._sans_const_cache = Prod(sans_const, skip_checks=True)
         if include_factor:
             return expr._sans_const_cache, expr._const_cache
         else:
-- 
2.43.0


From aad06b562b049decc105a5f249924b9ade45d8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:41 +0000
Subject: [PATCH 49/54] fix: what was left of an angle after whole turns were
 taken out was not looked at

---
 src/simpy/expr.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 04be14a..cc59b43 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1842,9 +1842,7 @@ class TrigFunction(SingleFunc, ABC):
                     if t.has(Pi):
                         coeff = t / pi
                         if isinstance(coeff, Rat) and coeff % cls._period == 0:
-                            instance = super().__new__(cls)
-                            instance.inner = inner - t
-                            return instance
+                            return cls(inner - t)
 
         if inner.has(Infinity) or inner.has(NegInfinity):
             # It can't stay: infinities that look the same don't cancel out.
@@ -1987,14 +1985,9 @@ class cos(TrigFunctionNotInverse):
 
     @cast
     def __new__(cls, inner: Expr) -> "Expr":
-        # bruh this is so complicated because doing cos(new, -inner) just sets inner as the original inner because of passing
-        # the same args down to init.
-        new = super().__new__(cls, inner)
-        if not isinstance(new, cos):
-            return new
         if inner.is_subtraction:
-            new.inner = -inner
-        return new
+            inner = -inner
+        return super().__new__(cls, inner)
 
 
 class tan(TrigFunctionNotInverse):
-- 
2.43.0


From 5f746e3e71beaea765673f38db90e1cf2ef81b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 50/54] fix: products of powers that combine into a product
 were left nested

---
 src/simpy/expr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index cc59b43..9a1ec12 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1215,6 +1215,10 @@ class Prod(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         new_terms = _combine_like_terms(terms)
+        while len(new_terms) > 1 and any(isinstance(t, Prod) for t in new_terms):
+            # Powers may combine into a product
+            # ex: sqrt(-x) * sqrt(-x) = -x
+            new_terms = _combine_like_terms(cls._flatten_terms(new_terms))
 
         if len(new_terms) == 0:
             return Rat(1)
-- 
2.43.0


From fed7e9bdb399227ecf36cb925d692e928c12bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:17 +0000
Subject: [PATCH 51/54] fix: multiples of a sum that combine into the sum were
 left nested

---
 src/simpy/expr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9a1ec12..05302fe 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -899,6 +899,9 @@ def _combine_like_terms_sum(terms: List[Expr]) -> List[Expr]:
             continue
         elif coeff == 1:
             non_constant_terms.append(Prod(non_const_factors1, skip_checks=True))
+        elif coeff == -1 and len(non_const_factors1) == 1 and isinstance(non_const_factors1[0], Sum):
+            # as a product, this isn't allowed to exist
+            non_constant_terms.append(-non_const_factors1[0])
         else:
             non_constant_terms.append(Prod([coeff] + non_const_factors1, skip_checks=True))
 
@@ -939,6 +942,10 @@ class Sum(Associative, Expr):
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
         final_terms = _combine_like_terms_sum(terms)
+        while len(final_terms) > 1 and any(isinstance(t, Sum) for t in final_terms):
+            # Multiples of a sum may combine into the sum itself
+            # ex: 3*(x + y) - 2*(x + y) = x + y
+            final_terms = _combine_like_terms_sum(cls._flatten_terms(final_terms))
 
         if len(final_terms) == 0:
             return Rat(0)
-- 
2.43.0


From 1eea18f4d09ad301ba07384c85f6eb528d4fa0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:50 +0000
Subject: [PATCH 52/54] fix: powers that combine into a power of another base
 were left next to others of that base

---
 src/simpy/expr.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 05302fe..de4688f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1221,11 +1221,14 @@ class Prod(Associative, Expr):
         # ex: Prod(x, Prod(Power(x, -1), y))
         terms = _cast(terms)
         terms = cls._flatten_terms(terms)
+        num_terms = len(terms)
         new_terms = _combine_like_terms(terms)
-        while len(new_terms) > 1 and any(isinstance(t, Prod) for t in new_terms):
-            # Powers may combine into a product
-            # ex: sqrt(-x) * sqrt(-x) = -x
-            new_terms = _combine_like_terms(cls._flatten_terms(new_terms))
+        while 1 < len(new_terms) < num_terms:
+            # Powers may combine into a product or into a power of something else, which may combine further
+            # ex: sqrt(-x) * sqrt(-x) = -x, (-x - y) * (-x - y) = (x + y)^2
+            terms = cls._flatten_terms(new_terms)
+            num_terms = len(terms)
+            new_terms = _combine_like_terms(terms)
 
         if len(new_terms) == 0:
             return Rat(1)
-- 
2.43.0


From bfc4d6534f06974e92cd2072577ac0cc1978c9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:04 +0000
Subject: [PATCH 53/54] fix: a sum written as one fraction could keep fractions
 in its numerator

---
 src/simpy/simplify/simplify.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 6cfed3d..cb859b9 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -170,7 +170,7 @@ def rewrite_as_one_fraction(sum: Expr, include_const_denoms=True) -> Optional[Ex
     """
     if not isinstance(sum, Sum):
         return sum
-    list_of_terms: List[Tuple[Expr, Expr]] = []
+    list_of_terms: List[Tuple[Expr, List[Expr]]] = []
 
     has_den = False
     common_den_terms = []
@@ -192,18 +192,17 @@ def rewrite_as_one_fraction(sum: Expr, include_const_denoms=True) -> Optional[Ex
             has_den = True
         else:
             num, den = term, Rat(1)
-        list_of_terms.append((num, den))
-
-        if isinstance(den, Prod):
-            add_common_den(den.terms)
-        else:
-            add_common_den([den])
+        den_terms = den.terms if isinstance(den, Prod) else [den]
+        list_of_terms.append((num, den_terms))
+        add_common_den(den_terms)
 
     if has_den == False:
         return
 
     common_den = Prod(common_den_terms)
-    new_nums = [num * common_den / den for num, den in list_of_terms]
+    # multiply by the factors that are missing, as dividing the common denominator by den might not cancel all of den
+    # ex: -(x - 1) / (x - 1), where -(x - 1) is 1 - x
+    new_nums = [num * Prod([f for f in common_den_terms if f not in den_terms]) for num, den_terms in list_of_terms]
     return Sum(new_nums) / common_den
 
 
-- 
2.43.0


From 2e0ecc97e100c0a3d504ad3c9773ef8b2b1bc4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:12 +0000
Subject: [PATCH 54/54] fix: integrals that simplifying makes harder had no
 answer, so that half of 1/(x^2 - 1) couldn't be integrated

---
 src/simpy/integration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 9fbfc2e..ac10cca 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -242,6 +242,12 @@ class Integration:
             current = time.time()
             if current - start >= self._timeout:
                 break
+            if root.is_failed and root.expr != integrand:
+                # simplifying isn't always helpful: 1/(2*(x + 1)*(x - 1)) becomes 1/(2*x^2 - 2), csc(x)^2 - 1 becomes cot(x)^2
+                root = Node(integrand, var)
+                _integrate_safely(root)
+                curr_node = root
+                continue
             if root.is_finished:
                 break
             if answer == "SOLVED":
-- 
2.43.0

