From 8db07b138d44be8f20ac49a6f4a064b51974d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 001/122] fix: parse multi-digit denominators in symbolic
 exponents and coefficients

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..7f210b0 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -128,7 +128,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -649,7 +649,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From facde54ec465c399060e119e54d8edf514fda4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 002/122] fix: parse symbolic constants with a signed decimal
 exponent

---
 src/eprempy/symbolic/_operand.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 7f210b0..8521069 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -409,7 +409,9 @@ class OperandFactory(_part.Factory):
         -----
         This method tries to match the 'variable' pattern before the 'constant'
         pattern because `re.match` will find a match for 'constant' at the start
-        of any variable term with an explicit coefficient.
+        of any variable term with an explicit coefficient. When both patterns
+        match, it keeps the longer match, so that it doesn't mistake the leading
+        part of a number in scientific notation (e.g., '1e-3') for a variable.
         """
         target = string[start:]
         matches = {
@@ -419,8 +421,8 @@ class OperandFactory(_part.Factory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            longer = len(matches['variable'][0]) > len(matches['constant'][0])
+            key = 'variable' if longer else 'constant'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From 3db5995db7e9aff04dcff5de867bac33c6084e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 003/122] fix: honor explicit zeros in symbolic coefficients
 and exponents

---
 src/eprempy/symbolic/_operand.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 8521069..e1780b7 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -68,11 +68,13 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(1 if exponent is None else exponent)
         """The numerical exponent."""
 
     @property
@@ -582,13 +584,15 @@ class OperandFactory(_part.Factory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](
+                default[key] if given.get(key) in (None, '') else given[key]
+            )
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -598,7 +602,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
-- 
2.43.0


From 48418e569010f62900d02f52db0655069830a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 004/122] fix: evaluate a square root that follows an operator
 in an expression

---
 src/eprempy/symbolic/_parser.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_parser.py b/src/eprempy/symbolic/_parser.py
index 66de152..dae2601 100644
--- a/src/eprempy/symbolic/_parser.py
+++ b/src/eprempy/symbolic/_parser.py
@@ -1,3 +1,4 @@
+import fractions
 import typing
 
 from . import _operand
@@ -181,8 +182,18 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
+        power = initial.exponent
+        if current.operator in {'multiply', 'divide'}:
+            # The operand of a binary operator may itself be a square root.
+            nested = self.operators.parse(current.string)
+            if (
+                nested and nested.result == 'sqrt'
+                and nested.remainder.startswith(self.tokens['opening'])
+            ):
+                power *= fractions.Fraction(1, 2)
+                current.string = nested.remainder
         if parsed := self.operands.parse(current.string):
-            current.operand = parsed.result ** initial.exponent
+            current.operand = parsed.result ** power
             current.string = parsed.remainder
         return current
 
-- 
2.43.0


From 5e508ef2e9a39192358c7bdb8b5b3b7a00a632f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 005/122] fix: keep rational exponents exact when raising
 symbolic terms to a power

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index e1780b7..6b65885 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -85,7 +85,7 @@ class Operand(_part.Part):
     def __pow__(self, power):
         """Create a new operand, raised to `power`."""
         coefficient = self.coefficient ** power
-        exponent = self.exponent * power
+        exponent = self.exponent * fractions.Fraction(power)
         return type(self)(coefficient, self.base, exponent)
 
     def __mul__(self, other):
-- 
2.43.0


From bc0a7f0267a25b5bd0a38fcc0add61264ba2b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 006/122] fix: give equal symbolic terms equal hashes

---
 src/eprempy/symbolic/_operand.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 6b65885..4c3f85d 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -785,7 +785,8 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        # NOTE: Equality compares floating-point values.
+        return hash((float(self.coefficient), self.base, float(self.exponent)))
 
 
 @typing.overload
-- 
2.43.0


From e8fa3c6dda1393c1d4a3252a940ae22639fc0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 007/122] fix: reject out-of-range negative indices of symbolic
 expressions

---
 src/eprempy/symbolic/_expression.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..bfe5ded 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -45,10 +45,8 @@ class Expression(collections.abc.Sequence):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
             idx = int(index)
-            if idx > len(self):
+            if not -len(self) <= idx < len(self):
                 raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
             return self.terms[idx]
         if isinstance(index, slice):
             return self.terms[index]
-- 
2.43.0


From f9486f17e50c30a5afcfd9e051c087aea8eeebe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 008/122] fix: raise symbolic expressions to exact rational
 powers

---
 src/eprempy/symbolic/_expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index bfe5ded..b5fe886 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -213,9 +213,11 @@ class Expression(collections.abc.Sequence):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to a float, unless `exp` is
+        an exact rational number.
         """
-        exp = float(exp)
+        if not isinstance(exp, (int, fractions.Fraction)):
+            exp = float(exp)
         if not exp:
             return NotImplemented
         terms = [pow(term, exp) for term in self]
-- 
2.43.0


From d12ca74a1d7fabe62ca10c5d9a27eb20346e64d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 009/122] fix: accept units with a micro prefix and the ohm
 symbol in expressions

---
 src/eprempy/symbolic/_operand.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 4c3f85d..fc92529 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -137,8 +137,8 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
+        \d*           # followed by optional digits
     """
 
     def __init__(
@@ -662,8 +662,8 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        [a-zA-ZμΩ#_]+ # one or more accepted non-digit character(s)
+        \d*           # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
 
-- 
2.43.0


From 8f7164a2c287f86456f991cea7551a1ddae65b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 010/122] fix: correct electromagnetic conversion factors
 between metric systems

---
 src/eprempy/metric/_reference.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..6bf7cc4 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C * 1e-1,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C * 1e-1,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -800,10 +800,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From c9b1c9b67982293f9cbae6ebc4ff80cf7897bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 011/122] fix: spell 'illuminance' consistently so that its
 units are defined

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 6bf7cc4..0030879 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From 78ed273a4d2e2c5c5160eec1a9e6ed801d208940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 012/122] fix: correct the canonical properties of displacement
 and permittivity

---
 src/eprempy/metric/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 0030879..ca4119b 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From c1ee5bdc4983385201e0f66635872d9e4e5ffe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 013/122] fix: convert between dimensionless units that cancel
 in a compound unit

---
 src/eprempy/metric/_conversions.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..48e526d 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -379,21 +379,28 @@ def _match_exponents(
     """Attempt to convert `target` to a term in `terms` by exponent.
 
     This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    unit and, if so, returns a conversion factor of 1.0 along with `target`,
+    unless `terms` contains a unit of the same quantity (e.g., degrees and
+    radians) that cancels it. If that check fails, this function compares
+    `target` to each term in `terms` that has an exponent with the same
+    magnitude and opposite sign. If it can convert the base unit of `target` to
+    the base unit of a term in `terms`, it will return the corresponding
+    conversion factor and the matching term.
     """
     u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
     exponent = target.exponent
     inverse_powers = [
         term for term in terms
         if term != target and term.exponent == -exponent
     ]
+    dimensions = _defined.NamedUnit(u0).dimensions.values()
+    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
+        quantity = _defined.NamedUnit(u0).quantity
+        for term in inverse_powers:
+            if _defined.NamedUnit(term.base).quantity == quantity:
+                if conversion := _convert_as_strings(u0, term.base):
+                    return conversion ** exponent, term
+        return 1.0, target
     for term in inverse_powers:
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
-- 
2.43.0


From a38083457401a9f2572d4ce69fcb41cd82799e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 014/122] fix: account for prefixes when converting units term
 by term

---
 src/eprempy/metric/_conversions.py | 66 +++++++++++++-----------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 48e526d..b401414 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -118,9 +118,13 @@ def _convert(u0: str, u1: str):
 
 def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     """Attempt to convert `u0` to `u1` as strings."""
-    checked = []
-    if factor := _recursive_conversion(checked, u0, u1):
+    if factor := _recursive_conversion([], u0, u1):
         return factor
+    if u0 in _reference.NAMED_UNITS and u1 in _reference.NAMED_UNITS:
+        n0, n1 = _defined.NamedUnit(u0), _defined.NamedUnit(u1)
+        b0, b1 = n0.base.symbol, n1.base.symbol
+        if factor := _recursive_conversion([], b0, b1):
+            return n0.scale * factor / n1.scale
 
 
 def _recursive_conversion(
@@ -290,10 +294,11 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
             scale, units = decomposition
             decomposed.extend(units)
             factor *= scale
+        else:
+            decomposed.append(term)
     if symbolic.expression(decomposed) == '1':
         return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
+    reduced = _reduce_terms(decomposed)
     if result := _resolve_terms(reduced):
         return factor * result
 
@@ -302,49 +307,31 @@ def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
+        return reduction
     for system in _reference.SYSTEMS:
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+                scale, units = reduction
+                return scale * factor**exponent, units
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
-    if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
+    """Compute the scale and fundamental units of a unit, if possible."""
+    try:
+        reduction = _defined.NamedUnit(base).reduce()
+    except _exceptions.SystemAmbiguityError:
+        return
+    if reduction:
+        units = [
+            symbolic.term(base=this.base, exponent=exponent*this.exponent)
             for this in reduction.units
         ]
-
-
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
+        return reduction.scale**exponent, units
 
 
 def _resolve_terms(terms: typing.List[symbolic.Term]):
     """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
     if len(terms) <= 1:
         # We require at least two terms for a ratio.
         return
@@ -379,9 +366,10 @@ def _match_exponents(
     """Attempt to convert `target` to a term in `terms` by exponent.
 
     This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`,
-    unless `terms` contains a unit of the same quantity (e.g., degrees and
-    radians) that cancels it. If that check fails, this function compares
+    unit and, if so, returns the conversion factor from `target` to the standard
+    unit of its quantity (e.g., 1.0 for radians) along with `target`, unless
+    `terms` contains a unit of the same quantity (e.g., degrees and radians)
+    that cancels it. If that check fails, this function compares
     `target` to each term in `terms` that has an exponent with the same
     magnitude and opposite sign. If it can convert the base unit of `target` to
     the base unit of a term in `terms`, it will return the corresponding
@@ -400,7 +388,9 @@ def _match_exponents(
             if _defined.NamedUnit(term.base).quantity == quantity:
                 if conversion := _convert_as_strings(u0, term.base):
                     return conversion ** exponent, term
-        return 1.0, target
+        n0 = _defined.NamedUnit(u0)
+        conversion = _convert_as_strings(u0, n0.norm['mks'].symbol) or n0.scale
+        return conversion ** exponent, target
     for term in inverse_powers:
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
-- 
2.43.0


From 9d441baa15ed1f2dcef7a86523ec97494ac39da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 015/122] fix: iterate over metric systems in a fixed order

---
 src/eprempy/metric/_defined.py   | 2 +-
 src/eprempy/metric/_reference.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..922cbcd 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -594,7 +594,7 @@ class NamedUnit(metaclass=_NamedUnitMeta):
         of applicable systems is equal to the set of all known systems.
         """
         dimensions = DIMENSIONS[self.quantity]
-        if not systems or (systems == _reference.SYSTEMS):
+        if not systems or (systems == set(_reference.SYSTEMS)):
             return dimensions.copy()
         base = dict.fromkeys(_reference.SYSTEMS)
         if len(systems) == 1:
diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index ca4119b..9dbb11c 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -43,7 +43,7 @@ UNITY = {'#', '1'}
 """Strings that represent dimensionless units."""
 
 
-SYSTEMS = {'mks', 'cgs'}
+SYSTEMS = ('mks', 'cgs')
 """The metric systems known to this module."""
 
 
-- 
2.43.0


From 5a41cdb67a0c42b20baf5fc9271fcc95b2239d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 016/122] fix: report an unknown metric quantity instead of
 recursing forever

---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index 922cbcd..4394450 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -116,9 +116,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 4e0b724412898dfa5ca0b31ac08ab18eab9159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 017/122] fix: reject a unit that has a numerical coefficient

---
 src/eprempy/metric/_units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..d1d4e7a 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -478,6 +478,9 @@ def normalize(
 
 def _as_symbol(unit: symbolic.Term):
     """Represent `unit` in terms of its symbol."""
+    if unit.coefficient != 1:
+        # A unit cannot have a numerical scale other than a metric prefix.
+        raise _exceptions.UnitParsingError(str(unit)) from None
     this = _reference.NAMED_UNITS[unit.base]
     prefix = this['prefix']['symbol']
     base = this['base']['symbol']
-- 
2.43.0


From 6c236a823bf7d2c7d85266aaa8fd6a3e8ebcb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 018/122] fix: find the unit of a dimension however the
 dimension is spelled

---
 src/eprempy/metric/_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index c64a25e..14cd0d6 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -334,8 +334,9 @@ class System(collections.abc.Mapping):
         target: typing.Union[str, _dimensions.Dimension],
     ) -> _units.Unit:
         """Get the canonical unit corresponding to the given dimension."""
+        expression = _dimensions.dimension_factory(target)
         for quantity, dimension in self.dimensions.items():
-            if dimension == target:
+            if expression == dimension:
                 return _units.unit_factory(self.units[quantity])
 
     def _unit_from_quantity(
-- 
2.43.0


From b43fc0cca15b6472d4177592babd608cdb5a3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 019/122] fix: keep the scale of converted arrays when
 converting again or transposing

---
 src/eprempy/physical/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..d3b1f1b 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -88,7 +88,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
@@ -153,7 +153,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 75ec00f696bc8ea63c25fc23177a47b220971792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 020/122] fix: apply numpy functions to each of their array
 arguments

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/real/_array.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..67dca9e 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -628,7 +628,7 @@ class Array(Quantity[DataType], Operators):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..ea4f4bd 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -52,7 +52,7 @@ class Array(numeric.Array[T], base.abc.Real):
 
     def _get_arg_data(self, arg):
         if isinstance(arg, Array):
-            return self.array
+            return arg.array
         return super()._get_arg_data(arg)
 
     _FUNCTIONS = {}
-- 
2.43.0


From 597806292f9ef212e0e3b8aa82673c0ac955d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 021/122] fix: honor slices with a step, sign or other indices
 when indexing arrays

---
 src/eprempy/numeric/_array.py | 4 ++--
 src/eprempy/numeric/_index.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 67dca9e..d91aaf6 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -388,7 +388,7 @@ class Array(Quantity[DataType], Operators):
                     self._get_axis_size(i, v)
                     for i, v in enumerate(indices)
                 ]
-                return array.reshape(shape)
+                return array.reshape(*shape, *self.shape[len(shape):])
         return array
 
     def _get_axis_size(self, i: int, v):
@@ -396,7 +396,7 @@ class Array(Quantity[DataType], Operators):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..ac81402 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(*arg.indices(shape[i])))
         elif isintegral(arg):
             indices.append((arg,))
         else:
-- 
2.43.0


From 17efa3faf7b07e54c8defd2136b3fca3cee4b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 022/122] fix: index and search integral axes that were given
 as ranges or lists

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..c13cf06 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -174,7 +174,7 @@ class Points(Axis[numpy.typing.NDArray[numpy.uint]]):
     """The interface to an integral axis."""
 
     def __init__(self, data: numpy.typing.NDArray[numpy.uint]) -> None:
-        super().__init__(data)
+        super().__init__(numpy.asarray(data))
 
     def index(self, *targets: T):
         if not targets:
-- 
2.43.0


From 7c58b7ea11801e86795f5796087d481074c1235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 023/122] fix: index physical arrays by numpy arrays and by
 fewer indices than dimensions

---
 src/eprempy/numeric/_index.py  | 2 +-
 src/eprempy/physical/_array.py | 1 +
 src/eprempy/physical/_axis.py  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ac81402..a29df34 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -685,7 +685,7 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # 2) a slice for every dimension represented by the ellipsis
     # 3) all arguments after the ellipsis
     nslice = ndim - nargs + 1
-    ellpos = args.index(Ellipsis)
+    ellpos = norm.index(Ellipsis)
     return (
         *args[slice(0, ellpos)],
         *([slice(None)] * nslice),
diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index d3b1f1b..1bd817a 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -67,6 +67,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
 
     def __getitem__(self, args, /):
         idx = numeric.index.expand(self.ndim, args)
+        idx = (*idx, *[slice(None)] * (self.ndim - len(idx)))
         data = self.data[idx]
         axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
         return self.spawn(data, unit=self.unit, axes=axes)
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index c13cf06..018731a 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -97,7 +97,7 @@ class Axis(numeric.Object[T]):
         original reference array.
         """
         axis = self.spawn(self.data[__i])
-        if __i in (slice(None), ...):
+        if __i is Ellipsis or isinstance(__i, slice) and __i == slice(None):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
-- 
2.43.0


From 3d32d249ecefba94d99603e66f1e48ee887420d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 024/122] fix: honor keepdims in sums and means of arrays

---
 src/eprempy/real/_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ea4f4bd..ec075d2 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -292,6 +292,8 @@ def mean(x: Array[ValueType], **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
     ax = axis % x.ndim
     dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
     return array_factory(data, dimensions=dimensions)
@@ -304,7 +306,7 @@ def sum(x: Array[ValueType], **kwargs):
     axis = kwargs.get('axis')
     if axis is None:
         return data
-    if 'keepdims' in kwargs:
+    if kwargs.get('keepdims'):
         return array_factory(data, dimensions=x.dimensions)
     ax = x.ndim + axis if axis < 0 else axis
     dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-- 
2.43.0


From 239f472040d9a61901a110f52ea68b38ef75e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 025/122] fix: support the minimum and maximum of arrays

---
 src/eprempy/real/_array.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ec075d2..ca55ab9 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -313,6 +313,31 @@ def sum(x: Array[ValueType], **kwargs):
     return array_factory(data, dimensions=dimensions)
 
 
+@Array.implements(numpy.min)
+def npmin(x: Array[ValueType], **kwargs):
+    """Compute the minimum of the underlying array."""
+    return _apply_extremum(x.array.min, x, **kwargs)
+
+
+@Array.implements(numpy.max)
+def npmax(x: Array[ValueType], **kwargs):
+    """Compute the maximum of the underlying array."""
+    return _apply_extremum(x.array.max, x, **kwargs)
+
+
+def _apply_extremum(f, x: Array[ValueType], **kwargs):
+    """Helper for `npmin` and `npmax`."""
+    data = f(**kwargs)
+    axis = kwargs.get('axis')
+    if axis is None:
+        return data
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
+    ax = axis % x.ndim
+    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+    return array_factory(data, dimensions=dimensions)
+
+
 @Array.implements(numpy.cumsum)
 def cumsum(x: Array[ValueType], **kwargs):
     """Compute the cumulative sum of the underlying array."""
-- 
2.43.0


From d72b7ff9ec270f010e7125269fbc82a03bc7203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 026/122] fix: report axes with different dimensions as such
 when adding them

---
 src/eprempy/physical/_axes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..52a0eb9 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -147,7 +147,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return NotImplemented
         if self.keys() != other.keys():
             raise ValueError(
-                f"Cannot fill {a} from {b} with different dimensions"
+                f"Cannot fill {self} from {other} with different dimensions"
             ) from None
         new = {}
         for key in self:
-- 
2.43.0


From 18427165838a7b68c2341714c56fa84b47340a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 027/122] fix: compute the symmetric difference of dimensions
 and a list of names

---
 src/eprempy/numeric/_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index d91aaf6..370814c 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -152,7 +152,7 @@ class Dimensions(collections.abc.Sequence):
     def __xor__(self, other):
         """Called for self ^ other."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (self - those) | (those - self)
@@ -160,7 +160,7 @@ class Dimensions(collections.abc.Sequence):
     def __rxor__(self, other):
         """Called for other ^ self."""
         try:
-            those = self._get_operand(other)
+            those = dimensions_factory(*self._get_operand(other))
         except DimensionTypeError:
             return NotImplemented
         return (those - self) | (self - those)
-- 
2.43.0


From 92ff11ca46eb65b1dd630c0f9359b59b4a2d8c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 028/122] fix: give default dimensions the same type as named
 ones

---
 src/eprempy/numeric/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 370814c..a485d5d 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -287,7 +287,7 @@ def dimensions_factory(*args):
     if len(args) == 1:
         arg = args[0]
         if isinstance(arg, numbers.Real):
-            return tuple(f'x{i}' for i in range(arg))
+            return Dimensions(tuple(f'x{i}' for i in range(arg)))
     unwrapped = container.unwrap(args, newtype=tuple)
     unique = container.unique(unwrapped)
     return Dimensions(_compute_names(unique))
-- 
2.43.0


From 55e75f8e7ed4e0d2fa78b9e959d1a06c1f5ff5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 029/122] fix: repeat singular dimensions when combining arrays
 by dimension

---
 src/eprempy/numeric/_array.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index a485d5d..f246175 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -799,8 +799,16 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    # NOTE: Limiting each index to the size of the corresponding dimension
+    # repeats the only value along a singular dimension.
+    idxa = tuple(
+        numpy.minimum(idxmesh[dimensions.index(d)], n - 1)
+        for d, n in a.shapemap.items()
+    )
+    idxb = tuple(
+        numpy.minimum(idxmesh[dimensions.index(d)], n - 1)
+        for d, n in b.shapemap.items()
+    )
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
-- 
2.43.0


From b942f649883bac0676fe498ab103ad944bd458e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 030/122] fix: keep full axes when combining arrays with
 singular dimensions

---
 src/eprempy/physical/_axes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 52a0eb9..fb7504d 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -181,6 +181,10 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
         mapping = {k: other[k] if k in other else self[k] for k in keys}
+        for k in keys:
+            # A singular axis does not replace a full axis.
+            if k in self and len(mapping[k]) == 1 < len(self[k]):
+                mapping[k] = self[k]
         return Axes(mapping)
 
     def copy(self):
-- 
2.43.0


From 4c3a65a8897ef5e1b9c52362e9cf9599396ac4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 031/122] fix: distribute the unit over values that were given
 as strings

---
 src/eprempy/quantity/_functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..78e396a 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -224,16 +224,17 @@ def parse(x, /, distribute: bool=False):
         # First, check for a single numeric string.
         if isinstance(unwrapped, str):
             with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
+                return parse([float(unwrapped)], distribute=distribute)
         # Next, check for all numeric strings.
         with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
+            values = [float(arg) for arg in unwrapped]
+            return parse(values, distribute=distribute)
         # Finally, check for numeric strings with a final unit.
         try:
             values = [float(arg) for arg in unwrapped[:-1]]
         except ValueError as err:
             raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
+        return parse([*values, unwrapped[-1]], distribute=distribute)
 
     # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
     if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-- 
2.43.0


From b1db0576943822465363cfc8f57d9a629251a4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 032/122] fix: find the nearest bounded value in unsorted and
 N-D collections

---
 src/eprempy/container.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..b6eb1ee 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,20 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
+    distance = numpy.abs(array - target)
+    index = distance.argmin()
     if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
+        allowed = array >= target
+        index = (
+            numpy.where(allowed, distance, numpy.inf).argmin()
+            if allowed.any() else array.size - 1
+        )
     elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+        allowed = array <= target
+        index = (
+            numpy.where(allowed, distance, numpy.inf).argmin()
+            if allowed.any() else 0
+        )
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 67b2231879127eb20235c7410ca31f20c2e7b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 033/122] fix: combine measurements whose equal units are
 spelled differently

---
 src/eprempy/quantity/_functions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 78e396a..daa6e8d 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -284,7 +284,7 @@ def _recursive_parse(unwrapped, distribute: bool):
         parse(arg, distribute=False) for arg in unwrapped
     ]
     units = [item[-1] for item in parsed]
-    if any(unit != units[0] for unit in units):
+    if not all(_same_unit(unit, units[0]) for unit in units):
         errmsg = "Cannot combine measurements with different units."
         raise ParsingValueError(errmsg)
     values = [
@@ -294,6 +294,15 @@ def _recursive_parse(unwrapped, distribute: bool):
     return (*values, unit)
 
 
+def _same_unit(a, b):
+    """True if two parsed units are the same, however they are spelled."""
+    if a == b:
+        return True
+    with contextlib.suppress(metric.UnitParsingError):
+        return metric.unit(a) == metric.unit(b)
+    return False
+
+
 def hasdata(a):
     """True if the argument appears to contain numeric data."""
     return getdata(a) is not None # NOTE: data could be 0
-- 
2.43.0


From 5abd0966fe1c8de9814105e8ca1ff7ca2d8b3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 034/122] fix: reduce one-dimensional objects along an axis and
 convert scalars to complex

---
 src/eprempy/physical/_operations.py | 10 +++++-----
 src/eprempy/physical/_scalar.py     |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..4cd972f 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -176,7 +176,7 @@ def asfloat(a):
 @Scalar.implements('complex')
 def ascomplex(a):
     """Compute complex(self)."""
-    return cast(complex, a, typing.SupportsComplex)
+    return cast(complex, a, numbers.Complex)
 
 
 def cast(__type: T, a, protocol: typing.Optional[type]=None) -> T:
@@ -549,7 +549,7 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
 def npmin(x: Measured[real.ValueType], **kwargs):
     """Compute the minimum value of `x`."""
     data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or isinstance(data, numbers.Real):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -562,7 +562,7 @@ def npmin(x: Measured[real.ValueType], **kwargs):
 def npmax(x: Measured[real.ValueType], **kwargs):
     """Compute the maximum value of `x`."""
     data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or isinstance(data, numbers.Real):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -575,7 +575,7 @@ def npmax(x: Measured[real.ValueType], **kwargs):
 def mean(x: Measured[real.ValueType], **kwargs):
     """Compute the mean of `x`."""
     data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or isinstance(data, numbers.Real):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
@@ -588,7 +588,7 @@ def mean(x: Measured[real.ValueType], **kwargs):
 def sum(x: Measured[real.ValueType], **kwargs):
     """Compute the sum of `x`."""
     data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
+    if isinstance(x, Scalar) or isinstance(data, numbers.Real):
         return scalar_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
diff --git a/src/eprempy/physical/_scalar.py b/src/eprempy/physical/_scalar.py
index 963e24a..0517520 100644
--- a/src/eprempy/physical/_scalar.py
+++ b/src/eprempy/physical/_scalar.py
@@ -72,7 +72,7 @@ class Scalar(Object[real.ValueType], Operators):
     @exceptions.convert(PhysicalTypeError, TypeError)
     def __complex__(self) -> complex:
         """Called for complex(self)."""
-        if operator := self._OPERATORS.get('complex'):
+        if operator := self._OPERATORS.get(complex):
             return operator(self)
         raise TypeError(
             f"Instances of {type(self)} do not support"
-- 
2.43.0


From 733a850a042043b29609766ae2742cdde7ee8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 035/122] fix: transpose one-dimensional arrays, permute after
 naming axes, and pass coordinates to trapz

---
 src/eprempy/numeric/_array.py       |  6 ++++--
 src/eprempy/physical/_array.py      |  5 ++++-
 src/eprempy/physical/_axes.py       |  3 ++-
 src/eprempy/physical/_operations.py | 14 +++++++-------
 src/eprempy/real/_array.py          | 10 +++++-----
 5 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index f246175..4d9b698 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -197,7 +197,7 @@ class Dimensions(collections.abc.Sequence):
         if args and 'order' in kwargs:
             raise TypeError("Too many arguments") from None
         if args:
-            if len(args) == 1:
+            if len(args) == 1 and not isinstance(args[0], typing.SupportsIndex):
                 return self._permute(args[0])
             return self._permute(args)
         if 'order' in kwargs:
@@ -504,6 +504,8 @@ class Array(Quantity[DataType], Operators):
             return self._transpose(args)
         if len(args) == 1:
             arg = args[0]
+            if isinstance(arg, typing.SupportsIndex):
+                return self.transpose([arg])
             if etc.allisinstance(str, *arg):
                 return self._transpose(arg)
         data = self.array.transpose(*args)
@@ -515,7 +517,7 @@ class Array(Quantity[DataType], Operators):
         self.dimensions.mismatch(args)
         axes = [self.dimensions.index(arg) for arg in args]
         data = self.array.transpose(axes)
-        return self.spawn(data, dimensions=args)
+        return self.spawn(data, dimensions=self.dimensions.permute(axes))
 
     @property
     def size(self) -> int:
diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 1bd817a..6baf54e 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -69,7 +69,10 @@ class Array(Tensor[real.Array[real.ValueType]]):
         idx = numeric.index.expand(self.ndim, args)
         idx = (*idx, *[slice(None)] * (self.ndim - len(idx)))
         data = self.data[idx]
-        axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
+        axes = {
+            k: v[list(i) if isinstance(i, tuple) else i]
+            for i, (k, v) in zip(idx, self.axes.items())
+        }
         return self.spawn(data, unit=self.unit, axes=axes)
 
     @typing.overload
diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index fb7504d..886ecae 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -385,7 +385,8 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         if args and 'order' in kwargs:
             raise TypeError("Too many arguments") from None
         if args:
-            if len(args) == 1:
+            single = (str, typing.SupportsIndex)
+            if len(args) == 1 and not isinstance(args[0], single):
                 return self._permute(args[0])
             return self._permute(args)
         if 'order' in kwargs:
diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 4cd972f..f583794 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -679,18 +679,18 @@ def _apply_gradient(unit, x, *args, **kwargs):
 
 @Array.implements(numpy.trapz)
 @from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+def trapz(y: Measured[real.ValueType], /, *args, **kwargs):
+    """Integrate `y` via the composite trapezoidal rule."""
+    if isinstance(y, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
+    data = numpy.trapz(y.data, *args, **kwargs)
     if isinstance(data, (numbers.Real, numpy.number)):
         return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+    metadata = {'unit': y.unit}
+    if isinstance(y, Array):
+        metadata['axes'] = {d: y.axes[d] for d in data.dimensions}
     return numeric.Result(data, **metadata)
 
 
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index ca55ab9..412e82a 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -391,15 +391,15 @@ def _apply_gradient(
 
 
 @Array.implements(numpy.trapz)
-def trapz(x: Array[ValueType], *args, **kwargs):
+def trapz(y: Array[ValueType], /, *args, **kwargs):
     """Integrate the array via the composite trapezoidal rule."""
-    data = numpy.trapz(x.array, *args, **kwargs)
+    data = numpy.trapz(y.array, *args, **kwargs)
     axis = kwargs.get('axis')
     if axis is None:
-        dimensions = x.dimensions[:-1]
+        dimensions = y.dimensions[:-1]
     else:
-        ax = axis % x.ndim
-        dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+        ax = axis % y.ndim
+        dimensions = [d for d in y.dimensions if y.dimensions.index(d) != ax]
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From 8404e1e569993fbf9e2bfadae33bfae34c02dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 036/122] fix: index one-dimensional physical arrays by numpy
 arrays

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index a29df34..4afc0c8 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -643,7 +643,7 @@ def expand(ndim: int, indices):
     """Expand `indices` so that they will index `ndim` dimensions."""
     if isinstance(indices, (list, tuple)):
         return expand_ellipsis(ndim, *indices)
-    if indices == slice(None):
+    if isinstance(indices, slice) and indices == slice(None):
         return expand_ellipsis(ndim, ...)
     if isinstance(indices, type(...)):
         return expand_ellipsis(ndim, indices)
-- 
2.43.0


From c6fcf719208e594790b32857941c7a0da451f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 037/122] fix: find end points despite rounding and refuse
 mismatched dimensions

---
 src/eprempy/numeric/_array.py | 2 ++
 src/eprempy/numeric/_data.py  | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 4d9b698..ae73ff2 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -249,6 +249,8 @@ class Dimensions(collections.abc.Sequence):
             raise ValueError(
                 f"Original dimensions do not include {dims}"
             ) from None
+        if a != b:
+            raise ValueError("Different dimensions") from None
 
     def __hash__(self):
         """Support use as a mapping key."""
diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From 81d40e4e5ef7a4b8312c1f67ebcee4c17db0943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 038/122] fix: fill singular symbolic axes and create axes from
 one length

---
 src/eprempy/physical/_axes.py | 2 +-
 src/eprempy/physical/_axis.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 886ecae..35febbd 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -488,7 +488,7 @@ def _map_axes(*args, **kwargs):
         # explicit dimension-axis pairs, and all the keyword arguments are
         # `None`, meaning we have nothing from which to create axes.
         raise ValueError("Empty axes") from None
-    if len(args) == 1:
+    if len(args) == 1 and not isinstance(args[0], numbers.Integral):
         # This ignores all other arguments on purpose.
         arg = args[0]
         if isinstance(arg, typing.Mapping):
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 018731a..fdec54d 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -81,8 +81,10 @@ class Axis(numeric.Object[T]):
     def __contains__(self, __x):
         """Called for x in self."""
         if isinstance(__x, Axis) and len(__x) == 1:
+            targets = __x.data if isinstance(__x, Symbols) else [__x]
             with contextlib.suppress(Exception):
-                return self.index(__x) in self.indices
+                self.index(*targets)
+                return True
         return __x in self.data
 
     def __getitem__(self, __i):
-- 
2.43.0


From 7860db5c427f7e08edb6bc7ae5a538f800ca4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 039/122] fix: keep the names of remaining dimensions when
 squeezing along an axis

---
 src/eprempy/real/_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 412e82a..cf0a73e 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -281,7 +281,13 @@ def squeeze(x: Array[ValueType], **kwargs):
     data = numpy.squeeze(x.array, **kwargs)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    axis = kwargs.get('axis')
+    if axis is None:
+        dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    else:
+        axes = axis if isinstance(axis, tuple) else (axis,)
+        removed = {int(a) % x.ndim for a in axes}
+        dimensions = [d for i, d in enumerate(x.dimensions) if i not in removed]
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From e34defb236f6319ed3e7bac8292700fd41649475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 040/122] fix: support datasets with a single energy or a
 single-energy grid

---
 src/eprempy/datafile/_interfaces.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index 494fb1b..95ff58a 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -112,7 +112,7 @@ class Axes(typing.Mapping[str, physical.Axis]):
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            data = numpy.squeeze(self._create('egrid'))
+            data = _without_species(self._create('egrid'))
             self._energy = physical.coordinates(data)
         return self._energy
 
@@ -222,14 +222,14 @@ class Arrays:
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            self._energy = numpy.squeeze(self._create('egrid'))
+            self._energy = _without_species(self._create('egrid'))
         return self._energy
 
     @property
     def v(self) -> physical.Array:
         """The particle speeds."""
         if self._v is None:
-            self._v = numpy.squeeze(self._create('vgrid'))
+            self._v = _without_species(self._create('vgrid'))
         return self._v
 
     @property
@@ -468,6 +468,11 @@ class Grid:
         return self._arrays.system
 
 
+def _without_species(array: physical.Tensor):
+    """Remove the leading species dimension from `array`, if necessary."""
+    return numpy.squeeze(array, axis=0) if array.ndim > 1 else array
+
+
 def axes_factory(
     source: paths.PathLike,
     system: typing.Optional[typing.Union[str, metric.System]]=None,
-- 
2.43.0


From fe9f80ad958cd3ddb7906cf68c4b2c3710b9c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 041/122] fix: restrict the flow angle and the acceleration
 rate to the requested shells

---
 src/eprempy/observable/_interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..62b467b 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
@@ -566,6 +566,8 @@ class Implementations:
 
     def _compute_ar(self, shell=None, species=None) -> physical.Array:
         """Helper for `_ar`."""
+        if isinstance(shell, numeric.index.Value):
+            shell = numeric.index.sequence([int(shell)])
         s = (
             shell if isinstance(shell, numeric.index.Sequence)
             else self.axes['shell'].index()
-- 
2.43.0


From 0bd430a034e7361e798f21c002cdc868cf898469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 042/122] fix: observe integral flux at a subset of energies

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 62b467b..ba26fad 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -823,7 +823,7 @@ class Implementations:
 
     def _integrate_flux_slice(self, flux, bins: slice):
         energy = self.axes['energy']
-        ie = energy.indices[bins]
+        ie = energy.indices
         e0 = self.energy(energy=ie)
         em = self.energy(energy=ie.shift(-1, floor=0))
         de = physical.array(
@@ -831,7 +831,7 @@ class Implementations:
             unit=e0.unit,
             axes={'energy': energy},
         )
-        return numpy.cumsum(flux * de, axis=-1)
+        return numpy.cumsum(flux * de, axis=-1)[..., bins]
 
     def _check_interp(
         self,
-- 
2.43.0


From 7e9c90edefa5634b7e0c8feb13eec89d8e9af2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 043/122] fix: provide every observable quantity that the
 collection lists

---
 src/eprempy/observable/_interfaces.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index ba26fad..5916d4f 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1538,6 +1538,40 @@ class Quantities(collections.abc.Mapping):
             assumptions=user.assumptions,
         )
 
+    @property
+    def ubmag(self):
+        """The product of the velocity- and magnetic-field magnitudes."""
+        return self._implement(
+            self._ubmag,
+            self.umag.unit * self.bmag.unit,
+            self.umag.dimensions,
+        )
+
+    def _ubmag(self, user: Arguments):
+        """Callback method for the product of field magnitudes."""
+        return self.functions.ubmag(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
+    @property
+    def udotb(self):
+        """The scalar product of the velocity and magnetic fields."""
+        return self._implement(
+            self._udotb,
+            self.ur.unit * self.br.unit,
+            self.ur.dimensions,
+        )
+
+    def _udotb(self, user: Arguments):
+        """Callback method for the scalar product of fields."""
+        return self.functions.udotb(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
     @property
     def angle(self):
         """The angle between the magnetic- and velocity-field vectors."""
-- 
2.43.0


From da75c6725ef5bc86aaf011a2a499466001210cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 044/122] fix: interpolate the rigidity and the mean free path
 to a requested energy

---
 src/eprempy/observable/_interfaces.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 5916d4f..6d3e3ba 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -472,6 +472,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -480,13 +481,12 @@ class Implementations:
         kinetic energy. Finally, it divides the momentum by the particle charge
         to get rigidity.
         """
-        # NOTE: Intermediate methods have already restricted the result via
-        # subscription or interpolation.
-        return self._compute_rigidity(
+        rigidity = self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self.energy(),
         )
+        return self._observe(rigidity, assumptions, energy=energy)
 
     def _compute_rigidity(
         self,
@@ -525,7 +525,7 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self.energy()
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
@@ -540,7 +540,11 @@ class Implementations:
         r0 = self.constants['au'].asscalar
         r = self.r(time, shell, assumptions)
         rterm = (r / r0) ** self.parameters['mfpRadialPower']
-        rgterm = (rg / rg0) ** self.parameters['rigidityPower']
+        rgterm = self._observe(
+            (rg / rg0) ** self.parameters['rigidityPower'],
+            assumptions,
+            energy=energy,
+        )
         lambda0 = self.parameters['lambda0'].withunit(str(self.system))
         # NOTE: Intermediate methods have already restricted the result via
         # subscription or interpolation.
@@ -1656,6 +1660,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From 537676d42cd693cd23655d1b63b494770ef338ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 045/122] fix: interpolate to radii that exactly match a grid
 point

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 src/eprempy/observable/_objects.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6d3e3ba..5aee67d 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -2015,10 +2015,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..6842e5b 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,10 +143,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
-- 
2.43.0


From f3173542f8e338a46046c8c6a2b28355162c2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 046/122] fix: interpolate over radius before interpolating
 over time

---
 src/eprempy/observable/_interfaces.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 5aee67d..699688e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -958,7 +958,9 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: The radial reference array depends on time, so it only matches
+        # the target quantity before any interpolation over time.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
-- 
2.43.0


From 65245c0f5828e2135203419290f432acc825842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 047/122] fix: accept interpolation targets at the end points
 of the reference interval

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 699688e..93b7f71 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1059,7 +1059,7 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    if not a <= value <= b:
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
-- 
2.43.0


From b6bbbaa16ef81c0d42eb0703e6996e91109455d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 048/122] fix: observe powers of observable quantities

---
 src/eprempy/observable/_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 6842e5b..fe40805 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -560,7 +560,8 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            x = other[user] if isinstance(other, Quantity) else other
+            return operator(self[user], x)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From 411d7e74d57ccf0210ea29be9eb322471814346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 049/122] fix: select nothing, rather than everything, for an
 empty slice of an observable

---
 src/eprempy/observable/_interfaces.py | 31 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 93b7f71..84d3193 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -99,27 +99,27 @@ class Implementations:
 
     def time(self, time=None) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self.dataset.time[_normalize_indices(_selected(time))]
 
     def energy(self, energy=None) -> physical.Array:
         """Compute the particle energies."""
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self.dataset.energy[_normalize_indices(_selected(energy))]
 
     def v(self, energy=None) -> physical.Array:
         """Compute the particle speeds."""
-        return self.dataset.v[_normalize_indices(energy or slice(None))]
+        return self.dataset.v[_normalize_indices(_selected(energy))]
 
     def mu(self, mu=None) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self.dataset.mu[_normalize_indices(_selected(mu))]
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
-        return self.dataset.mass[_normalize_indices(species or slice(None))]
+        return self.dataset.mass[_normalize_indices(_selected(species))]
 
     def charge(self, species=None) -> physical.Array:
         """Compute the charge of each species."""
-        return self.dataset.charge[_normalize_indices(species or slice(None))]
+        return self.dataset.charge[_normalize_indices(_selected(species))]
 
     ## -- primary observable quantities --
     # Each method accepts only the indices corresponding to the dataset
@@ -908,10 +908,10 @@ class Implementations:
     ) -> physical.Array:
         """Subscript the array based on user indices."""
         # Each value represents the user-provided indices, if available, or a
-        # full slice. The use of `user.indices.get(d) or slice(None)` instead of
-        # `user.indices.get(d, slice(None))` forces a slice even if
-        # `user.indices[d] == None`.
-        axes = tuple(indices.get(d) or slice(None) for d in x.dimensions)
+        # full slice. The use of `_selected(indices.get(d))` instead of
+        # `indices.get(d, slice(None))` forces a slice even if
+        # `indices[d] == None`, but not if `indices[d]` is empty.
+        axes = tuple(_selected(indices.get(d)) for d in x.dimensions)
         return x[_normalize_indices(*axes)]
 
     def _interpolate(
@@ -938,9 +938,9 @@ class Implementations:
         axes = tuple(
             # Each value represents the user-provided indices, if available, or
             # the default indices for the corresponding dimension of `x`. The
-            # use of `user.indices.get(d) or i` instead of `user.indices.get(d,
-            # i)` forces the default value even if `user.indices[d] == None`.
-            i if d in finished else indices.get(d) or i
+            # use of `_selected(indices.get(d), i)` instead of `indices.get(d,
+            # i)` forces the default value even if `indices[d] == None`.
+            i if d in finished else _selected(indices.get(d), i)
             for d, i in default.items()
         )
         return base[_normalize_indices(*axes)]
@@ -1040,6 +1040,11 @@ class Implementations:
         return self._grid
 
 
+def _selected(index, default=slice(None)):
+    """Use the given array-indexing object or, if there is none, a default."""
+    return default if index is None else index
+
+
 def _normalize_indices(*args):
     """Normalize array-indexing objects."""
     if all(isinstance(v, numeric.index.Value) for v in args):
-- 
2.43.0


From bec7a01923d1bab2d14a92637f8867eb27bf5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 050/122] fix: refuse to observe at shells that do not exist

---
 src/eprempy/observable/_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index fe40805..c8fe025 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -319,6 +319,9 @@ class Context:
             try:
                 p = self._parse_user_arg(k, v)
             except physical.AxisValueError:
+                if k not in {'time', 'energy', 'mu'}:
+                    # Interpolation over any other axis is meaningless.
+                    raise
                 # NOTE: We are here because `k` is the name of an axis but `v`
                 # is not a value in the corresponding axis array. We will
                 # therefore indicate to downstream code that it needs to
-- 
2.43.0


From ea09c3dd424fef55706e78aba626728c1c0daebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 051/122] fix: refuse shells that are given in a unit of
 another quantity

---
 src/eprempy/observable/_objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index c8fe025..3431c5b 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -477,6 +477,10 @@ class Quantity:
         s = quantity.measure(shell)
         if not quantity.isindexlike(s) and s.unit.quantity == 'length':
             return 'radius', physical.coordinates(s)
+        if s.unit != '1':
+            raise ValueError(
+                f"The unit {str(s.unit)!r} is inconsistent with 'shell'"
+            ) from None
         return 'shell', physical.points(numpy.array(s))
 
     def __eq__(self, other):
-- 
2.43.0


From a02e9616a8526ef73dd134a677ae225e250364b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 052/122] fix: compute the perpendicular speed of flow along
 the magnetic field

---
 src/eprempy/observable/_interfaces.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 84d3193..c5dc282 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -405,9 +405,15 @@ class Implementations:
         umag = self.umag(time, shell, assumptions)
         upara = self.upara(time, shell, assumptions)
         uperpsqr = umag**2 - upara**2
+        # NOTE: This difference can be slightly negative, due to rounding, where
+        # U and B are parallel.
+        data = numpy.array(uperpsqr)
+        data[data < 0.0] = 0.0
         # NOTE: Intermediate methods have already restricted the result via
         # subscription or interpolation.
-        return numpy.sqrt(uperpsqr)
+        return numpy.sqrt(
+            physical.array(data, unit=uperpsqr.unit, axes=uperpsqr.axes)
+        )
 
     def upara(
         self,
-- 
2.43.0


From ec12387f24b9fb6e427f19c91fbb85d2e19d81fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 053/122] fix: compute the integral flux above an energy that
 lies on the grid

---
 src/eprempy/observable/_interfaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c5dc282..e7f111c 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -874,6 +874,10 @@ class Implementations:
                 f"The length of the final dimension of the interpolant ({m})"
                 f" must equal the length of the coordinate array ({n})"
             ) from None
+        # NOTE: Unit conversions can move `p` away from a value in `x`, in which
+        # case it would become a spurious extra point next to that value.
+        if any(same := numpy.isclose(xarr, p, rtol=1e-9, atol=0.0)):
+            p = xarr[same][0]
         i0, x0 = container.nearest(xarr, p, bound='upper')
         try:
             lnxc = numpy.log(xarr[i0+1] / x0)
-- 
2.43.0


From a5199d38a87024e6afccc6f32c0f84473cd45a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 054/122] fix: interpolate to end points of an axis despite
 rounding

---
 src/eprempy/observable/_interfaces.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index e7f111c..1ea0477 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -983,10 +983,11 @@ class Implementations:
             if value is not None and isinstance(axis, physical.Coordinates):
                 m = quantity.measure(value).withunit(axis.unit)
                 a = physical.vector(axis[idx])
-                for v in m:
+                targets = _snap(numpy.array(m), numpy.array(a))
+                for v in physical.vector(targets, unit=axis.unit):
                     _check_interpolation_bounds(key, v, a)
                 interpolants[key] = Interpolant(
-                    targets=numpy.array(m),
+                    targets=targets,
                     reference=self.grid[key][idx],
                 )
         return interpolants
@@ -1066,6 +1067,14 @@ def _normalize_indices(*args):
     )
 
 
+def _snap(targets: numpy.ndarray, reference: numpy.ndarray):
+    """Replace targets that equal a reference value, up to rounding."""
+    result = numpy.array(targets)
+    for x in reference:
+        result[numpy.isclose(result, x, rtol=1e-12, atol=0.0)] = x
+    return result
+
+
 def _check_interpolation_bounds(
     dimension: str,
     value: measured.Object,
-- 
2.43.0


From a886e6befc7a39ff312489d60c9bfade094ab1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:11 +0000
Subject: [PATCH 055/122] fix: include the unit of the coordinate in
 numpy.trapz

---
 src/eprempy/physical/_operations.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index f583794..2907ab5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -679,16 +679,23 @@ def _apply_gradient(unit, x, *args, **kwargs):
 
 @Array.implements(numpy.trapz)
 @from_numpy
-def trapz(y: Measured[real.ValueType], /, *args, **kwargs):
+def trapz(y: Measured[real.ValueType], /, x=None, dx=1.0, axis=-1):
     """Integrate `y` via the composite trapezoidal rule."""
     if isinstance(y, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(y.data, *args, **kwargs)
+    unit = y.unit
+    if isinstance(x, Measured):
+        unit *= x.unit
+        x = numpy.array(x)
+    elif x is None and isinstance(dx, Measured):
+        unit *= dx.unit
+        dx = float(dx)
+    data = numpy.trapz(y.data, x, dx, axis=axis)
     if isinstance(data, (numbers.Real, numpy.number)):
         return data
-    metadata = {'unit': y.unit}
+    metadata = {'unit': unit}
     if isinstance(y, Array):
         metadata['axes'] = {d: y.axes[d] for d in data.dimensions}
     return numeric.Result(data, **metadata)
-- 
2.43.0


From e852a0534f4407a22209176950880c82e6719a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:00 +0000
Subject: [PATCH 056/122] fix: choose among the files of an observer in a fixed
 order

---
 src/eprempy/eprem.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..5dea95c 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -143,7 +143,7 @@ ObserverType = typing.TypeVar('ObserverType', bound=Observer)
 class Stream(Observer):
     """An EPREM stream observer."""
 
-    prefixes = {'stream', 'obs', 'flux'}
+    prefixes = ('stream', 'obs', 'flux')
 
     @classmethod
     def patterns(cls, __id: int) -> typing.List[str]:
@@ -174,7 +174,7 @@ class Stream(Observer):
 class Point(Observer):
     """An EPREM point observer."""
 
-    prefixes = {'point', 'p_obs'}
+    prefixes = ('point', 'p_obs')
 
     @classmethod
     def patterns(cls, __id: typing.Union[str, int]) -> typing.List[str]:
@@ -258,7 +258,7 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
+        patterns = (f'{prefix}{__id:06}.*' for prefix in ('obs', 'flux'))
         return _create_observer(Stream, patterns, config, source, system)
     patterns = []
     with contextlib.suppress(ValueError):
@@ -346,7 +346,7 @@ class Dataset:
         if self._streams is None:
             obspaths = [
                 path
-                for prefix in Stream.prefixes
+                for prefix in reversed(Stream.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -362,7 +362,7 @@ class Dataset:
         if self._points is None:
             obspaths = [
                 path
-                for prefix in Point.prefixes
+                for prefix in reversed(Point.prefixes)
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
@@ -410,7 +410,7 @@ class Dataset:
 def _get_observer_id(path: pathlib.Path):
     """Compute the appropriate observer ID for the given path."""
     stem = path.stem
-    prefixes = Stream.prefixes | Point.prefixes
+    prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
             key = stem.lstrip(prefix)
-- 
2.43.0


From fe8d164cadd85ce8a64fc4f707f6e10931d82ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 057/122] fix: accept the name of a config file as a path
 object

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 5dea95c..79ebddd 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -480,7 +480,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / config if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From f00a4cef7703023083c87d8213e787795a11c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 058/122] fix: keep the whole name of an observer file after
 its prefix

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 79ebddd..773b702 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -413,7 +413,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem[len(prefix):]
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From fbf82f71e1a0ba247d9d101887d3790399f31af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:31 +0000
Subject: [PATCH 059/122] fix: read config files with blank lines, indented
 comments, or '=' in values

---
 src/eprempy/parameter/_config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..c823755 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -253,11 +253,10 @@ def _parse_config(
     cmnt = comments or ()
     with filepath.open('r') as fp:
         for line in fp:
-            line = line.rstrip('\n')
-            if line == '' or line == '\n' or line[0] in cmnt:
-                continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if not tmp:
+                continue
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From bef802c861ba8bc24af7f70c236f51a05903a414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 060/122] fix: compare a config file to the file at a path

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index c823755..02064cd 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -208,7 +208,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From 3c5edf80ba940f46cec9d10f57f023feee0f8c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:22 +0000
Subject: [PATCH 061/122] fix: evaluate default values that are zero, signed or
 sums of several terms

---
 src/eprempy/parameter/_config.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 02064cd..262b5be 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -49,7 +49,8 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        value = cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
@@ -72,7 +73,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
@@ -83,22 +85,23 @@ class Defaults(collections.abc.Mapping):
             return functools.reduce(lambda x,y: x*y, evaluated)
         raise TypeError(f"Can't resolve {definition!r}") from None
 
+    # An operator between operands: not a leading sign or part of an exponent.
+    _additive = re.compile(r'(?<=[\w.])(?<!\d[eE])(?<!\.[eE])\s*([+-])\s*')
+
     def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
+        """Compute the sum of known parameters.
         
         Notes
         -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
+        This is only designed to handle strings that contain additive operators
+        joining arguments that `_evaluate` already knows how to handle.
         """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        first, *rest = self._additive.split(arg)
+        if rest:
+            total = self._evaluate(first.strip())
+            for operator, term in zip(rest[::2], rest[1::2]):
+                total += float(f'{operator}1')*self._evaluate(term.strip())
+            return total
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
-- 
2.43.0


From 8daa30939022e6c1a59da515ad5efa43d485a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:59 +0000
Subject: [PATCH 062/122] fix: evaluate parenthesized constants and refuse
 unknown ones

---
 src/eprempy/parameter/_src.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 3b0411a..cdf0705 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -237,13 +237,14 @@ class BaseTypesH(SourceFile):
         """Compute the value of a defined constant."""
         target = self.definitions[key]
         realtype = self.types.get(key)
-        if isinstance(target, realtype):
-            return target
-        if any(c in target for c in {'*', '/', 'sqrt'}):
-            return self._evaluate(symbolic.expression(target))
-        if realtype:
-            return realtype(target)
-        raise TypeError(target)
+        if realtype is not None:
+            if isinstance(target, realtype):
+                return target
+            try:
+                return realtype(target)
+            except ValueError:
+                pass # not a literal value
+        return self._evaluate(symbolic.expression(target))
 
     @property
     def types(self):
@@ -262,6 +263,8 @@ class BaseTypesH(SourceFile):
                 value *= float(term(self._compute(term.base)))
             elif term.base == '1':
                 value *= float(term)
+            else:
+                raise TypeError(f"Unknown constant {term.base!r}") from None
         return value
 
 
-- 
2.43.0


From 45562b635115b51c59c7f9ee987df08a7ecdcad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 063/122] fix: read lines of C source that end with a comment

---
 src/eprempy/parameter/_src.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index cdf0705..8d8197d 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -158,6 +158,14 @@ class SourceFile(collections.abc.Mapping):
         return '\n'.join(f"{line}," for line in lines)
 
 
+_COMMENT = re.compile(r"""("[^"]*")|//.*|/\*.*?\*/""")
+
+
+def _strip_comments(line: str) -> str:
+    """Remove C comments from a single line of source code."""
+    return _COMMENT.sub(lambda match: match[1] or '', line).strip()
+
+
 class BaseTypeDef:
     """Pattern parser for defined constants in baseTypes.h."""
 
@@ -182,7 +190,7 @@ class BaseTypeDef:
 
     def match(self, line: str):
         """Identify lines that define a runtime constant."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(_strip_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
@@ -309,7 +317,7 @@ class FunctionCall:
 
     def match(self, line: str):
         """Identify lines that read config-file input."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(_strip_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
@@ -374,7 +382,7 @@ class VariableDefinition:
 
     def match(self, line: str):
         """Identify lines that define a variable."""
-        if match := self.pattern.match(line.strip()):
+        if match := self.pattern.match(_strip_comments(line)):
             return match.groupdict()
 
     def parse(self, parsable: typing.Dict[str, str]):
-- 
2.43.0


From 9f9afc206d87f52b085726da81b6159c876feaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 064/122] fix: read arrays and strings with several items from
 C source

---
 src/eprempy/parameter/_config.py | 6 +++---
 src/eprempy/parameter/_src.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 262b5be..164ebee 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -70,9 +70,9 @@ class Defaults(collections.abc.Mapping):
         """Resolve a parameter definition into simpler components."""
         if self._struct_member.match(definition):
             return self._evaluate(definition.replace('config.', ''))
-        interior = definition.strip('[]')
-        if self._struct_member.match(interior):
-            return [self._evaluate(interior.replace('config.', ''))]
+        if definition.startswith('[') and definition.endswith(']'):
+            items = definition.strip('[]').split(',')
+            return [self._evaluate(item.strip()) for item in items]
         result = self._compute_sum(definition)
         if result is not None:
             return result
diff --git a/src/eprempy/parameter/_src.py b/src/eprempy/parameter/_src.py
index 8d8197d..69b5949 100644
--- a/src/eprempy/parameter/_src.py
+++ b/src/eprempy/parameter/_src.py
@@ -325,7 +325,7 @@ class FunctionCall:
         parsed = {}
         key = parsable['key'].strip(' "')
         mode = parsable['mode']
-        args = parsable['args'].split(',')
+        args = parsable['args'].split(',', len(self._keys[mode]) - 1)
         parsed.update(self._normalize(mode, args))
         return key, parsed
 
@@ -373,7 +373,7 @@ class VariableDefinition:
             # equals sign surrounded by optional whitespace
             \s*=\s*
             # array value(s)
-            \{(?P<value>(\d*(?:\.\d+)?)|((?:config\.)?\w+))\}
+            \{(?P<value>[^{}]*)\}
             # C statement terminator
             \;
             # optional whitespace, followed by the end of the string
-- 
2.43.0


From d720662ddb4682141abf4fd78aa3de95a16812fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 065/122] fix: write arrays and run-dependent values to a
 default config file as EPREM reads them

---
 src/eprempy/cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..942027f 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -53,15 +53,15 @@ def generate_config_file(
 ) -> None:
     """Create a configuration file with default parameter values."""
     default = parameter.interface(srcdir=source)
-    keys = sorted(parameter.ConfigurationC(source))
+    reference = parameter.ConfigurationC(source)
     header = [
         f"# EPREM default configuration file\n",
         f"# Generated at {_timestr}\n",
         f"# --------------------------------\n",
     ]
     values = [
-        f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        _format_definition(key, default[key], reference[key])
+        for key in sorted(reference)
     ]
     footer = [
         f"# --------------------------------\n",
@@ -75,6 +75,16 @@ def generate_config_file(
         print(f"Wrote default config file to {filepath}")
 
 
+def _format_definition(key: str, arg, reference: typing.Mapping) -> str:
+    """Format this argument for a configuration file."""
+    if arg is None: # no value apart from a particular run
+        return f"# {key}={reference['defaultVal']}\n"
+    if reference['type'] == list:
+        data = arg.data if isinstance(arg, measured.Object) else arg
+        return f"{key}=[{', '.join(str(value) for value in data)}]\n"
+    return f"{key}={_get_arg_value(arg)}\n"
+
+
 def compare_config_files(
     files: typing.Iterable[paths.PathLike],
     source: paths.PathLike=None,
-- 
2.43.0


From 7564f6acb5d8baf077fe4bb8b9ca112d3571aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 066/122] fix: compare config files without empty entries or
 when nothing differs

---
 src/eprempy/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 942027f..6cbd254 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -102,6 +102,8 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args: # no differences
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -151,7 +153,7 @@ def _build_arg_dict(
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-    built = {key: {} for key in keys}
+    built = {}
     for key in keys:
         heading = f"  {key} (default: {_format_arg_string(default[key])})  "
         current = _map_parameter(key, targets)
@@ -159,8 +161,6 @@ def _build_arg_dict(
         v0 = values[0]
         if not diff or any(vi != v0 for vi in values):
             built[heading] = current.copy()
-    if diff:
-        return {k: v for k, v in built.items() if v}
     return built
 
 
-- 
2.43.0


From 8cd1cedea1f4174fc3d83b2d035bd1acbd9cf2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:29 +0000
Subject: [PATCH 067/122] fix: compare config files to the default values in
 the given source

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 6cbd254..d5394ff 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -142,14 +142,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From 118c60a68d3e377fe8f5a02cfbcb5ba9d7865500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 068/122] fix: take an empty slice of a variable

---
 src/eprempy/parameter/_runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index f2efe0d..8a3eb73 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -41,7 +41,7 @@ class Variable(physical.Vector[real.ValueType]):
         if isinstance(idx, typing.SupportsIndex) and idx < 0:
             idx += len(self)
         data = self.data[idx]
-        if container.length(data) == 0:
+        if numpy.ndim(data) == 0:
             return physical.scalar(data, unit=self.unit)
         return variable_factory(data, unit=self.unit)
 
-- 
2.43.0


From 5f58dda32b9a568c9ec18ebca2795b4a914e77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 069/122] fix: refuse to convert a variable with several values
 to a number

---
 src/eprempy/parameter/_runtime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index 8a3eb73..e3b3455 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -73,7 +73,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_scalar(self, f: typing.Callable, **kwargs):
         """Return the result of `f` as a `~Scalar`."""
         try:
-            data = f(self.data[0], **kwargs)
+            data = f(self._singular(), **kwargs)
         except TypeError as err:
             raise TypeError(
                 f"Cannot apply {f.__name__} to size-{self.size} variable"
@@ -83,7 +83,7 @@ class Variable(physical.Vector[real.ValueType]):
     def _as_builtin(self, t: T):
         """Convert this instance to a built-in numeric type."""
         try:
-            result = t(self.data[0])
+            result = t(self._singular())
         except TypeError as err:
             raise TypeError(
                 f"Cannot convert a size-{self.size} variable to {t!r}"
@@ -94,7 +94,7 @@ class Variable(physical.Vector[real.ValueType]):
         """Represent this object as a single value only if possible."""
         size = self.size
         if size == 1:
-            return self.data[0]
+            return self.data.item()
         raise TypeError(
             f"Cannot represent a size-{size} variable as a number"
         ) from None
-- 
2.43.0


From d8ebe8f57dd000d32f8e84e31700ab80a204d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:06 +0000
Subject: [PATCH 070/122] fix: refuse negative indices beyond the start of a
 variable

---
 src/eprempy/parameter/_runtime.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index e3b3455..952e8f6 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -38,8 +38,6 @@ class Variable(physical.Vector[real.ValueType]):
           produce 0-D data.
         """
         idx = container.unwrap(args)
-        if isinstance(idx, typing.SupportsIndex) and idx < 0:
-            idx += len(self)
         data = self.data[idx]
         if numpy.ndim(data) == 0:
             return physical.scalar(data, unit=self.unit)
-- 
2.43.0


From caab03c232d56cd9620e3bcc5501fe59cff5040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 071/122] fix: get parameter values without useDegrees in the
 source

---
 src/eprempy/parameter/_runtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index 952e8f6..977097c 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -168,9 +168,10 @@ class Interface(aliased.Mapping[str, _VT]):
             raise KeyError(f"No parameter corresponding to {__k!r}") from None
         value = this['value']
         unit = this['unit']
-        usedeg = super().__getitem__('useDegrees')
-        if unit == 'rad' and usedeg['value']:
-            unit = 'deg'
+        if unit == 'rad' and 'useDegrees' in self:
+            usedeg = super().__getitem__('useDegrees')
+            if usedeg['value']:
+                unit = 'deg'
         if unit is None:
             return value
         return variable_factory(value, unit=unit)
-- 
2.43.0


From 0df4e67c9e794997883856f7f80b4280e3344b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 072/122] fix: give default values the type of their parameter

---
 src/eprempy/parameter/_config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 164ebee..8f2a2e3 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -37,7 +37,11 @@ class Defaults(collections.abc.Mapping):
     def __getitem__(self, name: str):
         """Retrieve a parameter value by name."""
         if name in self.reference:
-            return self._evaluate(name)
+            value = self._evaluate(name)
+            realtype = self.reference[name]['type']
+            if realtype in {int, float} and isinstance(value, numbers.Real):
+                return realtype(value)
+            return value
         raise KeyError(f"Unknown parameter {name!r}")
 
     _special_cases = {
-- 
2.43.0


From c8ccdf0836c69416d5bd47aeb34d8e2f82e60bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 073/122] fix: give equal alias groups equal hashes

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..071212e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From 6188388ca45f440905495630ae5d522e6b77b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 074/122] fix: merge alias groups with every group that they
 overlap

---
 src/eprempy/aliased.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 071212e..4381288 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -156,19 +156,13 @@ class Groups(collections.abc.MutableSet, typing.Generic[_KT]):
         for this in others:
             groups = this if isinstance(this, Groups) else [this]
             for group in groups:
-                if found := self._search(group):
+                merged = Group(group)
+                for found in [g for g in these if not g.isdisjoint(merged)]:
                     these.remove(found)
-                    these.append(found | group)
-                else:
-                    these.append(group)
+                    merged = found | merged
+                these.append(merged)
         return these
 
-    def _search(self, group: typing.Iterable[_KT]):
-        """Search for a member of `group` that is in this instance."""
-        for member in group:
-            if found := self.get(member):
-                return found
-
     def add(self, __x: typing.Iterable[_KT]) -> None:
         """Add `__x` to the existing groups."""
         for i in __x:
-- 
2.43.0


From cc8bc662333579e0f3bc3e64f0aace4956950db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 075/122] fix: copy aliased mappings with their aliases

---
 src/eprempy/aliased.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 4381288..47e0b70 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -815,7 +815,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
@@ -986,6 +986,12 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
             return self._groups[name]
         self._groups[name] = keys
 
+    def copy(self):
+        """Create a shallow copy of this instance."""
+        copied = super().copy()
+        copied._groups = self._groups.copy()
+        return copied
+
     def freeze(self, groups: bool=False):
         """Generate a new immutable mapping from this instance.
         
-- 
2.43.0


From 6ce933aa331a46ce8c08b30b1d30e1a93172653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 076/122] fix: keep aliases when freezing a mapping with its
 groups

---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 47e0b70..5356255 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -1004,7 +1004,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         if not groups:
             return Mapping(self)
         grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        return Mapping({**self.as_dict, **grouped})
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From 384ff7855cc35180a5dd922347af52fad799ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 077/122] fix: return the unique table entry that the first
 criteria determine

---
 src/eprempy/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index b6eb1ee..747dcca 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -661,11 +661,11 @@ class Table(collections.abc.Mapping):
                 if entry[key] == value
             ]
             if not strict:
+                if len(subset) == 1:
+                    return subset[0]
                 count = self[key].count(value)
                 if count > n_checked and len(request) == n_checked:
                     raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
         raise TableLookupError(request)
-- 
2.43.0


From 1c5d7ed80adae3db77472b5215c8bbb4dd661935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 078/122] fix: keep 'cd' a candela after creating a centiday

---
 src/eprempy/metric/_defined.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index 4394450..cd2cd33 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -241,7 +241,14 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        # Store the new instance under each alias that is unique to it. For
+        # example, 'cd' represents 'candela' even though it would also be the
+        # symbol for 'centiday'.
+        aliases = tuple(
+            alias for alias in (name, symbol)
+            if identify(alias) == (magnitude, reference)
+        )
+        cls._instances[aliases] = instance
         return instance
 
 
-- 
2.43.0


From fedcbfc72b1bc994ade06a8666a19ae4c9a31521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 079/122] fix: normalize slices of an axis as indices of that
 axis

---
 src/eprempy/physical/_axis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index fdec54d..8d061d2 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -62,7 +62,7 @@ class Axis(numeric.Object[T]):
         if len(targets) == 1:
             target = targets[0]
             if isinstance(target, slice):
-                return container.slice2range(target, stop=len(self))
+                return range(*target.indices(len(self)))
             if isinstance(target, (list, tuple, numpy.ndarray)):
                 return target
             if container.isiterable(target):
-- 
2.43.0


From 3084c4d5a23db504503acd421395989b14998311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 080/122] fix: keep the indices of a subset of symbols

---
 src/eprempy/physical/_axis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 8d061d2..8bba746 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -209,7 +209,9 @@ class Symbols(Axis[typing.List[str]]):
 
     def __getitem__(self, index, /):
         if container.isiterable(index):
-            return self.spawn([self.data[i] for i in index])
+            axis = self.spawn([self.data[i] for i in index])
+            axis._indices = numeric.index.sequence(index)
+            return axis
         return super().__getitem__(index)
 
     def index(self, *targets: T):
-- 
2.43.0


From ea713a26e38b58f9a8cca6b74458a1883c7f9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 081/122] fix: create the script of a new project

---
 src/eprempy/project.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..f2ec66e 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,13 +790,22 @@ class Interface:
             return
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
-        payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        # Convert relative imports to absolute imports, since the project script
+        # does not belong to this package.
+        local = 'from . import '
+        payload = [
+            line.replace(local, f'from {__package__} import ', 1)
+            if line.startswith(local) else line
+            for line in lines
+        ]
+        import_line = next(
+            i for i, line in enumerate(lines) if line.startswith(local)
+        )
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From 6f554824933bdc095693fb7d2f97fef38bbc9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 082/122] fix: update logged paths when a project moves

---
 src/eprempy/project.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index f2ec66e..50adafc 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,16 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
+        source = self.path.parent
         self._path = new / self.name
-        source = str(self.path.parent)
-        for key in self:
-            self.mv(key, key.replace(source, str(new)))
+        updated = {}
+        for key, value in self._asdict.items():
+            path = pathlib.Path(key)
+            if source in path.parents:
+                updated[str(new / path.relative_to(source))] = value
+            else:
+                updated[key] = value
+        self.dump(updated)
         return self
 
     @typing.overload
-- 
2.43.0


From b9771f2d8102dc5d68d0926b08a166e61617a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 083/122] fix: log the contents of a file as a new entry

---
 src/eprempy/project.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 50adafc..7b178d8 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -176,13 +176,10 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of the `source` file."""
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
-            if loaded := loader(fp):
-                contents.update(loaded)
-        return contents
+            return dict(loader(fp) or {})
 
     def _source_loader(self, filetype: str):
         """Get a format-specific file-reader."""
-- 
2.43.0


From 0db4c10b35c079453b9af30e6c29ba59cf8cae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 084/122] fix: keep the log of runs when an entry is not
 serializable

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7b178d8..e147de3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -238,8 +238,9 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
+        text = json.dumps(payload, indent=4, sort_keys=True)
         with self.path.open('w') as fp:
-            json.dump(payload, fp, indent=4, sort_keys=True)
+            fp.write(text)
 
     @property
     def name(self):
-- 
2.43.0


From d0439ede109e4790b66f92a37ab09235cc149ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 085/122] fix: copy the options of a project

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e147de3..4c98dc9 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -737,7 +737,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From 1e8c5cbb9caaccdb6d00bd0c3529a07e40415d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 086/122] fix: update a project when it is renamed

---
 src/eprempy/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 4c98dc9..69da671 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -888,6 +888,9 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        # Update this instance to match.
+        self._attrs = self._restore_project(new)
+        self._name = None
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
-- 
2.43.0


From 9e3f7c4100eb96a5b722ebaea762e965873be62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 087/122] fix: run the config file that the project copied

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 69da671..a47b76d 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -956,7 +956,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self.root / self._attrs.inputs.name / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -965,7 +965,7 @@ class Interface:
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From f4bd01a006cb9f41905ca5182db0752c449a69a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 088/122] fix: rename runs that are not in the log

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index a47b76d..3c55417 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1015,7 +1015,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From eb6e8eb6267a6c77e435ec6cb5065420fac4f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 089/122] fix: compare projects by their attributes

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 3c55417..eb5b440 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1104,7 +1104,7 @@ class Interface:
     def __eq__(self, other) -> bool:
         """True if two projects have the same initializing attributes."""
         if isinstance(other, Interface):
-            return self._attrs == other._attrs
+            return self._attrs.serial == other._attrs.serial
         return NotImplemented
 
     def __str__(self) -> str:
-- 
2.43.0


From e1b6b927e4b22a0201278acd4e1b96bb138eb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 090/122] fix: show runs by name

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index eb5b440..55dc548 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1325,7 +1325,7 @@ showruns.add_argument(
         "display information about the named run"
         ";\nspecify multiple times to include multiple runs"
     ),
-    action='extend',
+    action='append',
 )
 showruns.add_argument(
     '-a',
-- 
2.43.0


From f14d8373420695de86c01ac976b1320a7c8fd6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 091/122] fix: correct the first radiation constant in cgs

---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..dbed701 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-05},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From cc22ec939326dd65c7425869011ad6c5de27d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:06 +0000
Subject: [PATCH 092/122] fix: convert a constant to another unit

---
 src/eprempy/universal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index dbed701..1fe4ece 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -9,6 +9,7 @@ import numpy
 
 from . import aliased
 from . import measured
+from . import metric
 from . import physical
 from . import real
 
@@ -211,6 +212,11 @@ class Constant(measured.Value[real.ValueType]):
         self._quantity = quantity
         self._info = info
 
+    def withunit(self, new: metric.UnitLike, /):
+        """Convert this constant to a new unit."""
+        value = measured.value(self.data, unit=self.unit).withunit(new)
+        return type(self)(value, self.quantity, self.info)
+
     @property
     def asscalar(self):
         """Extract the value and unit as a scalar object."""
-- 
2.43.0


From 82da4a626965a2307ab4e12ccce803183b1dd08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:01 +0000
Subject: [PATCH 093/122] fix: refuse several indices, or none, where a single
 index is required

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 4afc0c8..f0c947b 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -482,7 +482,7 @@ def value_args(x, /):
     if index is not None:
         return index
     indices = _sequence_args(x)
-    if indices is not None:
+    if indices is not None and len(indices) == 1:
         return indices[0]
     raise TypeError(
         f"Cannot initialize {Value} from {x}, which has type {type(x)}"
-- 
2.43.0


From bf10aec351015141030f0c113d47c1d2c6c0c8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:10 +0000
Subject: [PATCH 094/122] fix: accept index values and arrays of any integral
 type as indices

---
 src/eprempy/numeric/_index.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index f0c947b..34a2030 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -504,16 +504,17 @@ def sequence_args(x, /):
 
 def _value_args(x, /):
     """Helper for `index_args`."""
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and x.dtype.kind in 'iu':
         if x.size == 1:
-            v = x[0] if x.ndim == 1 else x
-            return int(v)
+            return int(x.item())
         raise TypeError(
             f"Can only initialize {Value} from a"
             " zero- or one-dimensional array-like object"
         ) from None
     if isinstance(x, (numbers.Integral, numpy.integer)):
         return x
+    if isinstance(x, Value):
+        return x.data
     if isinstance(x, (bytes, str)):
         try:
             index = int(x)
@@ -538,10 +539,9 @@ def _sequence_args(x, /):
                 return [int(i) for i in x]
         if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
             return x
-    if isinstance(x, numpy.ndarray) and x.dtype == int:
+    if isinstance(x, numpy.ndarray) and x.dtype.kind in 'iu':
         if x.size == 1:
-            v = x[0] if x.ndim == 1 else x
-            return numpy.array(int(v), ndmin=1)
+            return numpy.array(int(x.item()), ndmin=1)
         y = x.squeeze()
         ndim = y.ndim
         if ndim == 1:
-- 
2.43.0


From f4891722b9e57e5a08050ee189772ed8537ed4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 095/122] fix: raise indices to the powers of an index sequence

---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 34a2030..7c0d418 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From 9ab5a04d12f359b63dc8a02b8baa0379f1c99373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 096/122] fix: refuse to combine index sequences of different
 lengths

---
 src/eprempy/numeric/_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 7c0d418..415f486 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -315,6 +315,10 @@ def arithmetic(f, a, b, **kwargs):
 def binary(f, a, b, **kwargs):
     """Compute f(a, b, **kwargs) on numeric data."""
     if isinstance(a, Sequence) and isinstance(b, Sequence):
+        if len(a) != len(b):
+            raise OperandTypeError(
+                f"Sequences have different lengths: {len(a)} and {len(b)}"
+            ) from None
         return [f(x, y, **kwargs) for (x, y) in zip(a.data, b.data)]
     if isinstance(a, Sequence):
         if isinstance(b, Value):
-- 
2.43.0


From c3906ecaaec4153cfe1c094f94bc5bebee3ee9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:54 +0000
Subject: [PATCH 097/122] fix: refuse measured indices that are not integral

---
 src/eprempy/numeric/_index.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 415f486..b70af95 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -522,7 +522,7 @@ def _value_args(x, /):
         return index
     if isinstance(x, measurable.Type):
         if x.isunitless:
-            return x.data
+            return _value_args(_integral_data(x))
         raise ValueError(
             f"Can only initialize {Value} from a unitless object"
         ) from None
@@ -554,12 +554,21 @@ def _sequence_args(x, /):
         return x.data
     if isinstance(x, measurable.Type):
         if x.isunitless:
-            return _sequence_args(x.data)
+            return _sequence_args(_integral_data(x))
         raise ValueError(
             f"The argument to {Sequence} must be unitless."
         ) from None
 
 
+def _integral_data(x: measurable.Type):
+    """Convert the data of a measurable object to integral type."""
+    data = numpy.array(x.data)
+    integral = data.astype(int)
+    if numpy.array_equal(integral, data):
+        return integral
+    raise TypeError(f"The data of {x} are not integral") from None
+
+
 _BUILTIN_TYPES = (int, slice, type(...), type(None))
 
 _INDEX_DTYPES = (
-- 
2.43.0


From a644e4e26ba5adb84baf16407e5e03f72fdfe4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:18 +0000
Subject: [PATCH 098/122] fix: shift an index value to a limit that is an index
 value

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index b70af95..780c1be 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -64,9 +64,9 @@ class Value(Object[int]):
         """Shift index by a constant value."""
         index = int(self.data) + int(__x)
         if floor is not None and index < floor:
-            return Value(floor)
+            return Value(int(floor))
         if ceil is not None and index > ceil:
-            return Value(ceil)
+            return Value(int(ceil))
         return Value(index)
 
 
-- 
2.43.0


From 97994cf9a410bc5a230c7a6554081db4badd30bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:30 +0000
Subject: [PATCH 099/122] fix: restrict indices along the first axis of an
 array

---
 src/eprempy/numeric/_index.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 780c1be..feb3d06 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -762,9 +762,8 @@ def _compute_bounds(
             ) from None
         return tuple(bounds)
     if bounds.ndim == 2:
-        lower = numpy.min(bounds[:, 0])
-        upper = numpy.max(bounds[:, 1])
-        return lower, upper
+        lowers, uppers = numpy.moveaxis(bounds, axis, 0)
+        return numpy.min(lowers), numpy.max(uppers)
     # NOTE: We can get `lower` and `upper` for N-D arrays by replacing `:` with
     # `...`. The problem is that they will be (N-1)-D arrays that we will then
     # need to split into individual index vectors before returning.
-- 
2.43.0


From bce5ab545704aa1d745bda998aa52961af9d35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:31 +0000
Subject: [PATCH 100/122] fix: label plots with the unit of the plotted values

---
 src/eprempy/physical/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 6baf54e..0971528 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -189,10 +189,11 @@ def plot(
     **extra
 ) -> None:
     """Plot the named array."""
-    ndarray = numpy.array(array.withunit(unit or array.unit)).squeeze()
+    converted = array.withunit(unit or array.unit)
+    ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{array.unit.format(style='tex')}]"
+    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
-- 
2.43.0


From c9d1f10b17ad24ccb0323ebcfbbf733daf695ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:43 +0000
Subject: [PATCH 101/122] fix: keep the axis labels that a caller gives to a
 plot

---
 src/eprempy/physical/_array.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 0971528..f8609b8 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -193,7 +193,8 @@ def plot(
     ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
+    if 'ylabel' not in extra:
+        extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
@@ -205,7 +206,8 @@ def plot(
                 extra['xlabel'] = f"{name} [{m.unit}]"
         else:
             xarr = numpy.array(axis)
-            extra['xlabel'] = name
+            if 'xlabel' not in extra:
+                extra['xlabel'] = name
         _create_plot(xarr, ndarray, *args, **extra)
     else:
         if isinstance(x, measured.Type):
@@ -218,7 +220,8 @@ def plot(
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-            extra['xlabel'] = x
+            if 'xlabel' not in extra:
+                extra['xlabel'] = x
         else:
             raise TypeError(x)
         _create_plot(xarr, ndarray, *args, **extra)
-- 
2.43.0


From 54fbb1c39df6032b5680c559d1b9dc44d8913d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:45 +0000
Subject: [PATCH 102/122] fix: plot an array against given coordinates

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index f8609b8..c769feb 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -216,7 +216,7 @@ def plot(
             m = quantity.measure(x)
             xarr = numpy.array(m)
             if 'xlabel' not in extra:
-                extra['xlabel'] = f"{name} [{m.unit}]"
+                extra['xlabel'] = f"[{m.unit}]"
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-- 
2.43.0


From d117f8543cfdd7519d2be7676df69b36ec6d0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:44 +0000
Subject: [PATCH 103/122] fix: text of a scaled reduction of a unit counted the
 scale several times

---
 src/eprempy/metric/_defined.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index cd2cd33..a430d40 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -315,8 +315,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     __rmul__ = __mul__
     """Called for other * self."""
@@ -326,15 +325,14 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
-        return type(self)(terms, scale=scale, system=self.system)
+        return type(self)(self.units, scale=scale, system=self.system)
 
     def __pow__(self, other):
         """Called for self ** other."""
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = [unit ** other for unit in self.units]
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-- 
2.43.0


From 166013badd98e04e699036e9fa5e3c0499523723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:44 +0000
Subject: [PATCH 104/122] fix: Axes.insert dropped the new axis for a location
 that it did not find

---
 src/eprempy/physical/_axes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 35febbd..3018212 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -294,8 +294,20 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         if len(kwargs) == 0:
             return self | {dimension: new}
         locator, location = kwargs.popitem()
+        if locator == 'index':
+            names = list(self.dimensions)
+            names.insert(location, dimension)
+            return Axes({d: new if d == dimension else self[d] for d in names})
+        if locator not in ('before', 'after'):
+            raise TypeError(
+                f"Unknown location keyword for new axes: {locator!r}"
+            ) from None
+        if location not in self:
+            raise KeyError(
+                f"Axes do not contain {location!r}"
+            ) from None
         mapping = {}
-        for i, d in enumerate(self.dimensions):
+        for d in self.dimensions:
             current = self[d]
             if locator == 'before' and d == location:
                 mapping[d] = current
@@ -303,9 +315,6 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             elif locator == 'after' and d == location:
                 mapping[dimension] = new
                 mapping[d] = current
-            elif locator == 'index' and i == location:
-                mapping[dimension] = new
-                mapping[d] = current
             else:
                 mapping[d] = current
         return Axes(mapping)
-- 
2.43.0


From 8787105e32c7f984943d70a257a1879bb4a8a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 105/122] fix: paths.locate raised TypeError for a name that is
 not on the system path

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..55b8135 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -60,7 +60,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From 614047fd76eb2dbed8f2b5913d28a25c6659d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 106/122] fix: templates were searched in the directory in
 which the package was imported

---
 src/eprempy/paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 55b8135..bd5a33a 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -245,10 +245,10 @@ def search(file: PathLike, *paths: PathLike) -> pathlib.Path:
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike=None,
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
-    d = fullpath(directory, strict=True)
+    d = fullpath(directory or pathlib.Path.cwd(), strict=True)
     for template in templates:
         test = d / str(template(name))
         if test.exists():
-- 
2.43.0


From 738bf28eb15f4c128108b8f5980730e05e0c1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 107/122] fix: an exception of a subtype of a known type raised
 KeyError

---
 src/eprempy/exceptions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d64d09c..7cfe7c1 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -125,8 +125,9 @@ class Wrapper:
         try:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            known = next(t for t in type(err).__mro__ if t in self._substitutions)
+            value = self._substitutions[known]
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From ecbc93ab4efd9d17e14d98faa1993fe277e17d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 108/122] fix: classes of unique instances shared their
 instances

---
 src/eprempy/etc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 7b46755..5ef9f34 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -99,7 +99,7 @@ class InstanceSet(abc.ABCMeta):
 
     def __call__(self, *args, **kwargs):
         """Ensure that only one instance of the given object exists."""
-        key = self._generate_key(*args, **kwargs)
+        key = (self, self._generate_key(*args, **kwargs))
         if key not in self._instances:
             self._instances[key] = super().__call__(*args, **kwargs)
         return self._instances[key]
-- 
2.43.0


From 392fb0f082033130578325404e8e39c287bc76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 109/122] fix: a table with values without a format could not
 be shown

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 747dcca..384f2cb 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -553,7 +553,7 @@ class Table(collections.abc.Mapping):
         ]
         rows = [
             [
-                f"{entry[name]:^{2*colpad + column['width']}}"
+                f"{str(entry[name]):^{2*colpad + column['width']}}"
                 for name, column in columns.items()
             ] for entry in self
         ]
-- 
2.43.0


From acc161b292f6442e1210a7bef929a41bc85e9e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:31 +0000
Subject: [PATCH 110/122] fix: a symbolic axis could not be subscripted with an
 ellipsis

---
 src/eprempy/physical/_axis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 8bba746..8e92893 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -98,8 +98,11 @@ class Axis(numeric.Object[T]):
         Both cases are designed to preserve index information with regard to the
         original reference array.
         """
+        if __i is Ellipsis:
+            # Not all types of reference data support an ellipsis.
+            __i = slice(None)
         axis = self.spawn(self.data[__i])
-        if __i is Ellipsis or isinstance(__i, slice) and __i == slice(None):
+        if isinstance(__i, slice) and __i == slice(None):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
-- 
2.43.0


From defb63cec12bf7fe30192707d84c6cf64ae955bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 111/122] fix: numeric.factory.strict raised UnboundLocalError
 for an unusable argument

---
 src/eprempy/numeric/_factory.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_factory.py b/src/eprempy/numeric/_factory.py
index 3cfb5ac..d9bbb31 100644
--- a/src/eprempy/numeric/_factory.py
+++ b/src/eprempy/numeric/_factory.py
@@ -21,10 +21,8 @@ def strict(*args):
     """
     if all(isinstance(arg, str) for arg in args):
         func, keys = None, args
-    elif len(args) == 1:
-        arg = args[0]
-        if callable(arg):
-            func, keys = arg, ()
+    elif len(args) == 1 and callable(args[0]):
+        func, keys = args[0], ()
     else:
         raise TypeError(args)
     def decorate(__callable: typing.Callable[..., ObjectT]):
-- 
2.43.0


From a90e2eef65e69a708cca539ba2481cc52049f1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:06 +0000
Subject: [PATCH 112/122] fix: unary operators without an implementation
 returned NotImplemented

---
 src/eprempy/numeric/_implementation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_implementation.py b/src/eprempy/numeric/_implementation.py
index b04956c..455a0f3 100644
--- a/src/eprempy/numeric/_implementation.py
+++ b/src/eprempy/numeric/_implementation.py
@@ -38,9 +38,16 @@ def unary(operation: typing.Union[str, typing.Callable]):
     """Implement a unary numeric operation."""
     f = resolve(operation)
     def operator(self, **kwargs):
+        result = NotImplemented
         if isinstance(self, Customizable):
-            return self.__object_operator__(f, self, **kwargs)
-        return NotImplemented
+            result = self.__object_operator__(f, self, **kwargs)
+        if result is NotImplemented:
+            # NOTE: Python only interprets `NotImplemented` as a lack of support
+            # when a binary operator returns it.
+            raise TypeError(
+                f"Cannot apply {operation!r} to an instance of {type(self)}"
+            ) from None
+        return result
     return operator
 
 
-- 
2.43.0


From 30f7ece976e360f5ea6512121a335b1b236e39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:09 +0000
Subject: [PATCH 113/122] fix: no real variable could be created

---
 src/eprempy/real/_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/real/_objects.py b/src/eprempy/real/_objects.py
index da07539..0f80817 100644
--- a/src/eprempy/real/_objects.py
+++ b/src/eprempy/real/_objects.py
@@ -12,7 +12,7 @@ from ._types import ValueType
 T = typing.TypeVar('T')
 
 
-class Variable(numeric.Object[ValueType], base.abc.Sequence):
+class Variable(numeric.Object[ValueType], base.mixins.Sequence):
     """A sequence-like object with conditional cast to built-in type.
     
     An instance of this class behaves like a sequence of real values, and
-- 
2.43.0


From 02488765f5d197848a3a9212f1822bbef37337b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:11 +0000
Subject: [PATCH 114/122] fix: powers of arrays with different dimensions
 combined values by position

---
 src/eprempy/physical/_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 2907ab5..5fd347f 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -386,8 +386,8 @@ def exponential(f, a, b, **kwargs):
         # - both `a` and `b` are unitless
         # - `b` is array-like
         if isinstance(a, Array) and isinstance(b, Array):
-            data = f(a.data.array, b.data.array, **kwargs)
-            return array_factory(data, unit='1', axes=a.axes)
+            data = f(a.data, b.data, **kwargs)
+            return array_factory(data, unit='1', axes=b.axes | a.axes)
         if isinstance(a, Array):
             data = f(a.data.array, b.data, **kwargs)
             return array_factory(data, unit='1', axes=a.axes)
-- 
2.43.0


From cdd21d0a6e008d8bf39c456d31746f97c65dfd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:35 +0000
Subject: [PATCH 115/122] fix: quantities of one unit computed from different
 units could not be added

---
 src/eprempy/observable/_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 3431c5b..3493456 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -429,7 +429,7 @@ class Quantity:
         # normalization process and we simply want to pass the existing set of
         # arguments along to the target operator.
         if isinstance(args, Arguments):
-            return self.context.apply(args)
+            return self.context.apply(args).withunit(self.unit)
         # Expand arguments to one index per dimension.
         normalized = self._normalize(args)
         nargs = len(normalized)
-- 
2.43.0


From 7c39c16b11ef37889c44c6a2481b55c733a21668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:03 +0000
Subject: [PATCH 116/122] fix: asking whether a numeric array contains a value
 raised AttributeError

---
 src/eprempy/numeric/_array.py | 2 +-
 src/eprempy/numeric/_data.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index ae73ff2..0303d59 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -483,7 +483,7 @@ class Array(Quantity[DataType], Operators):
         --------
         `~numeric.data.isclose`
         """
-        return _data.isclose(self, value)
+        return _data.isclose(self.array, value)
 
     @typing.overload
     def transpose(
diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index eddd84e..22db673 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -45,7 +45,7 @@ def isclose(a: Object, b: numbers.Real) -> bool:
       standard containment via `in` before attempting to determine if `b` is
       close enough, within a very strict tolerance, to any member of `a`.
     """
-    data = a.data
+    data = a.data if isinstance(a, Object) else a
     if not container.isiterable(data):
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
-- 
2.43.0


From 80ddcccd3d242d8ca818be7387915cf2ab2db0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:36 +0000
Subject: [PATCH 117/122] fix: a quantity was found in physical objects that
 have a different unit

---
 src/eprempy/physical/_tensor.py | 2 ++
 src/eprempy/physical/_vector.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/eprempy/physical/_tensor.py b/src/eprempy/physical/_tensor.py
index d34603e..e8572a3 100644
--- a/src/eprempy/physical/_tensor.py
+++ b/src/eprempy/physical/_tensor.py
@@ -28,6 +28,8 @@ class Tensor(Object[base.ArrayType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, measured.Object):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
diff --git a/src/eprempy/physical/_vector.py b/src/eprempy/physical/_vector.py
index 0685221..1836048 100644
--- a/src/eprempy/physical/_vector.py
+++ b/src/eprempy/physical/_vector.py
@@ -25,6 +25,8 @@ class Vector(Object[base.SequenceType]):
 
     def __contains__(self, v) -> bool:
         """Called for v in self."""
+        if isinstance(v, measured.Object):
+            return v.unit == self.unit and v.data in self.data
         return v in self.data
 
     def __len__(self) -> int:
-- 
2.43.0


From cf3796c7acd540e2a79f1a9f90b123448cb32db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:28 +0000
Subject: [PATCH 118/122] fix: a physical scalar could not be rounded to a
 number of digits

---
 src/eprempy/numeric/_implementation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_implementation.py b/src/eprempy/numeric/_implementation.py
index 455a0f3..5a24a95 100644
--- a/src/eprempy/numeric/_implementation.py
+++ b/src/eprempy/numeric/_implementation.py
@@ -37,10 +37,10 @@ class Customizable(typing.Protocol):
 def unary(operation: typing.Union[str, typing.Callable]):
     """Implement a unary numeric operation."""
     f = resolve(operation)
-    def operator(self, **kwargs):
+    def operator(self, *args, **kwargs):
         result = NotImplemented
         if isinstance(self, Customizable):
-            result = self.__object_operator__(f, self, **kwargs)
+            result = self.__object_operator__(f, self, *args, **kwargs)
         if result is NotImplemented:
             # NOTE: Python only interprets `NotImplemented` as a lack of support
             # when a binary operator returns it.
-- 
2.43.0


From 8a906c7d406fe6a1a7635639328992aacda851f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:04 +0000
Subject: [PATCH 119/122] fix: a quotient of decimal numbers without spaces was
 misread in expressions

---
 src/eprempy/symbolic/_operand.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index fc92529..fba4a28 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -130,7 +130,8 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+)          # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator, unless it
+            (?![\d.]|[eE][-+]?\d) # is part of a decimal number
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -655,7 +656,8 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+)          # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator, unless it
+            (?![\d.]|[eE][-+]?\d) # is part of a decimal number
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From c13fece631373985c664bf67b0da116fcc4380b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:34 +0000
Subject: [PATCH 120/122] fix: conversions of electromagnetic units depended on
 the spelling of compound units

---
 src/eprempy/metric/_conversions.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index b401414..a990276 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -108,14 +108,27 @@ def _convert(u0: str, u1: str):
         _convert_as_strings,
         _convert_as_expressions,
     )
+    d0, d1 = _as_defined(u0), _as_defined(u1)
     for converter in converters:
-        if factor := converter(u0, u1):
+        if factor := converter(d0, d1):
             return Conversion(u0, u1, factor)
     raise _exceptions.UnitConversionError(
         f"Cannot convert {u0!r} to {u1!r}"
     ) from None
 
 
+def _as_defined(unit: str):
+    """Spell a compound unit the way the defined conversions do, if possible."""
+    if unit in _reference.NAMED_UNITS or unit in _reference.CONVERSIONS.nodes:
+        return unit
+    expression = symbolic.expression(unit)
+    for node in _reference.CONVERSIONS.nodes:
+        if node not in _reference.NAMED_UNITS:
+            if symbolic.expression(node) == expression:
+                return node
+    return unit
+
+
 def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     """Attempt to convert `u0` to `u1` as strings."""
     if factor := _recursive_conversion([], u0, u1):
-- 
2.43.0


From aa93c200fbd4291c0b4196d678b232f6dabcf1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:04 +0000
Subject: [PATCH 121/122] fix: a unit whose name contains spaces was unknown
 until its symbol had been used

---
 src/eprempy/metric/_units.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index d1d4e7a..e54e12a 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -407,8 +407,12 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     if available := _units.get(string):
         # If the argument maps to an existing unit, return that unit.
         return available
-    # First time through: create a symbolic expression from `arg`.
-    expression = symbolic.expression(arg)
+    # First time through: create a symbolic expression from `arg`. Use the symbol
+    # of a single named unit, since its name may contain spaces.
+    expression = symbolic.expression(
+        _defined.NamedUnit(string).symbol
+        if string in _reference.NAMED_UNITS else arg
+    )
     # The canonical string representation of this unit is the expression
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
-- 
2.43.0


From 752e3b00eaf78af5d1fb73536ecca48a7b4d9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:05 +0000
Subject: [PATCH 122/122] fix: products of observable quantities could fail on
 the order in which their names were sorted

---
 src/eprempy/observable/_interfaces.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 1ea0477..bd3dfae 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1148,7 +1148,13 @@ class Quantities(collections.abc.Mapping):
     def _build_observable(self, key: str, /):
         """Retrieve or create an observable quantity by name."""
         name = reference.OBSERVABLES.names.get(key, key)
-        expression = symbolic.expression(name, raising='**')
+        # Start with the quantities that have the most dimensions, since the
+        # product of others may not have its dimensions in the same order.
+        expression = sorted(
+            symbolic.expression(name, raising='**'),
+            key=lambda term: len(self._get_observable(term.base).dimensions),
+            reverse=True,
+        )
         term = expression[0]
         result = self._get_observable(term.base)
         if len(expression) == 1:
-- 
2.43.0

