From b3a9573b8813f05d37c91fd400177c3208df591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 01/71] fix: update units in place operations and ufunc out
 arguments with numpy 2

With numpy >= 2, __array_prepare__ is no longer called, so *=, /=, //= and
**= changed the values but kept the old units. //= also bypassed the
protection of views.
---
 quantities/quantity.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 74a425f..ee2d37b 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -327,7 +327,9 @@ class Quantity(np.ndarray):
                 return obj
         # For NumPy > 2.0 we either do the prepare or the wrap
         else:
-            if not isinstance(obj, Quantity):
+            if not isinstance(obj, Quantity) or context is not None:
+                # with an output argument (e.g. in-place operators) obj is
+                # already a Quantity and its units have to be updated
                 return self.__array_prepare__(obj, context)
             else:
                 return super().__array_wrap__(obj, context, return_scalar)
@@ -390,6 +392,11 @@ class Quantity(np.ndarray):
     def __itruediv__(self, other):
         return super().__itruediv__(other)
 
+    @with_doc(np.ndarray.__ifloordiv__)
+    @protected_multiplication
+    def __ifloordiv__(self, other):
+        return super().__ifloordiv__(other)
+
     @with_doc(np.ndarray.__rtruediv__)
     def __rtruediv__(self, other):
         return np.true_divide(other, self)
@@ -404,7 +411,7 @@ class Quantity(np.ndarray):
     @check_uniform
     @protected_power
     def __ipow__(self, other):
-        return super().__ipow__(other)
+        return np.power(self, other, out=self)
 
     def __round__(self, decimals=0):
         return np.around(self, decimals)
@@ -657,7 +664,7 @@ class Quantity(np.ndarray):
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            out
+            None if out is None else out.magnitude
         )
         dim = self.dimensionality
         if out is None:
-- 
2.43.0


From 306c276c3608cf350e4441f83332ed5556141b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/71] fix: honour axis and out in nan-aware reductions

nanmax, nanmin, nanargmax and nanargmin ignored their axis and out
arguments; nansum, nanmean and nanstd failed for an output Quantity.
---
 quantities/quantity.py | 63 ++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index ee2d37b..bd8c945 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -536,10 +536,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nansum(self.magnitude, axis, dtype, out),
-            self.dimensionality
-        )
+        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
@@ -601,10 +605,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return Quantity(
-            np.nanmax(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
@@ -619,10 +627,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return Quantity(
-            np.nanmin(self.magnitude),
-            self.dimensionality
-        )
+        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.argmin)
     def argmin(self, axis=None, out=None):
@@ -630,11 +642,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
@@ -717,9 +729,14 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        return Quantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
-            self.dimensionality)
+        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
@@ -745,10 +762,14 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        return Quantity(
-            np.nanstd(self.magnitude, axis, dtype, out, ddof),
-            self._dimensionality
-        )
+        ret = np.nanstd(self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof)
+        dim = self.dimensionality
+        if out is None:
+            return Quantity(ret, dim)
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        out._dimensionality = dim
+        return out
 
     @with_doc(np.ndarray.prod)
     def prod(self, axis=None, dtype=None, out=None):
-- 
2.43.0


From bbff1ed7ba51ad5e49ab12f83fbeeb639a87056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/71] fix: comparing incompatible quantities returns the
 broadcast shape

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index bd8c945..d1cf1b2 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -474,7 +474,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.zeros(self.shape, '?')
+                return np.zeros(np.broadcast_shapes(self.shape, other.shape), '?')
         return self.magnitude == other
 
     @with_doc(np.ndarray.__ne__)
@@ -483,7 +483,7 @@ class Quantity(np.ndarray):
             try:
                 other = other.rescale(self._dimensionality).magnitude
             except ValueError:
-                return np.ones(self.shape, '?')
+                return np.ones(np.broadcast_shapes(self.shape, other.shape), '?')
         return self.magnitude != other
 
     @with_doc(np.ndarray.__ge__)
-- 
2.43.0


From be71303282b4f821e7f2c748e9729a0da4e00959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 04/71] fix: clip accepts plain bounds for dimensionless
 quantities

---
 quantities/quantity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index d1cf1b2..22c7ca8 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -672,6 +672,8 @@ class Quantity(np.ndarray):
             raise ValueError(
                 "both min and max must be Quantities with compatible units"
             )
+        if not isinstance(min, Quantity): min = Quantity(min)
+        if not isinstance(max, Quantity): max = Quantity(max)
 
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
-- 
2.43.0


From 08c671ebb4bb7494e747f4465737073e9bd33990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/71] fix: prod accepts a tuple of axes

---
 quantities/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 22c7ca8..cd8d448 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -778,7 +778,9 @@ class Quantity(np.ndarray):
         if axis == None:
             power = self.size
         else:
-            power = self.shape[axis]
+            power = 1
+            for i in axis if isinstance(axis, tuple) else (axis, ):
+                power *= self.shape[i]
 
         ret = self.magnitude.prod(axis, dtype, None if out is None else out.magnitude)
         dim = self._dimensionality**power
-- 
2.43.0


From 279ffa48111c174eb777e933cd0cd92180f04f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 06/71] fix: make copies and deep copies faithful and
 independent

deepcopy of a Quantity shared its data, deepcopy and copy.copy of units
gave a plain or broken object, deepcopy of an UncertainQuantity or a
Dimensionality raised, and copies of an UncertainQuantity shared the
uncertainty array.
---
 quantities/quantity.py          |  3 +--
 quantities/uncertainquantity.py | 11 +++++++++++
 quantities/unitquantity.py      |  9 +++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index cd8d448..aaedf54 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -837,8 +837,7 @@ class Quantity(np.ndarray):
                 state)
 
     def __deepcopy__(self, memo_dict):
-        # constructor copies by default
-        return Quantity(self.magnitude, self.dimensionality)
+        return Quantity(copy.deepcopy(self.magnitude, memo_dict), self.dimensionality)
 
 
 def _reconstruct_quantity(subtype, baseclass, baseshape, basetype,):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 319a6cc..c5776d0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -284,3 +284,14 @@ class UncertainQuantity(Quantity):
         reconstruct, reconstruct_args, state = super().__reduce__()
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
+
+    def copy(self, order='C'):
+        ret = super().copy(order)
+        ret._uncertainty = self._uncertainty.copy()
+        return ret
+
+    def __copy__(self):
+        return self.copy('K')
+
+    def __deepcopy__(self, memo_dict):
+        return self.copy('K')
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index d5487fc..7d22a4a 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -284,6 +284,12 @@ class UnitQuantity(Quantity):
                 )
             )
 
+    def __copy__(self):
+        return self.copy()
+
+    def __deepcopy__(self, memo_dict):
+        return self.copy()
+
 unit_registry['UnitQuantity'] = UnitQuantity
 
 
@@ -434,6 +440,9 @@ class Dimensionless(UnitQuantity):
             self.__getstate__()
         )
 
+    def copy(self):
+        return type(self)(self._name)
+
     @property
     def _dimensionality(self):
         return Dimensionality()
-- 
2.43.0


From 48853320d167a3d2716477d1376c07d60bc7e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 07/71] fix: protect unit definitions from later changes to the
 defining quantity

---
 quantities/unitquantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 7d22a4a..6eea916 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -56,6 +56,10 @@ class UnitQuantity(Quantity):
         if definition is not None:
             if not isinstance(definition, Quantity):
                 definition *= dimensionless
+            if not isinstance(definition, UnitQuantity):
+                # later changes to the caller's object must not reach the unit
+                definition = definition.copy()
+                definition.flags.writeable = False
             ret._definition = definition
             ret._conv_ref = definition._reference
         else:
-- 
2.43.0


From 27ddbbe4edc9aef11168ca125d7a8f36855ed1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 08/71] fix: keep every digit of unit exponents in rendered
 units

Trailing zeros of integer exponents were stripped (m**10 was rendered as
m**1) and fractional exponents were split in unicode, LaTeX and HTML.
---
 quantities/markup.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index d8d4284..6a65312 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -30,7 +30,7 @@ config = _Config()
 superscripts = ['⁰', '¹', '²', '³', '⁴', '⁵', '⁶', '⁷', '⁸', '⁹']
 
 def superscript(val):
-    items = re.split(r'\*{2}([\d]+)(?!\.)', val)
+    items = re.split(r'\*{2}([\d]+)(?![\d.e])', val)
     ret = []
     while items:
         try:
@@ -41,6 +41,12 @@ def superscript(val):
             ret.append(s)
     return ''.join(ret)
 
+def format_exponent(val):
+    res = '%s' % val
+    if '.' in res and 'e' not in res:
+        res = res.rstrip('0').rstrip('.')
+    return res
+
 def format_units(udict):
     '''
     create a string representation of the units contained in a dimensionality
@@ -61,12 +67,12 @@ def format_units(udict):
             u = key.symbol
         if d>0:
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**%s'%format_exponent(d)
             num.append(u)
         elif d<0:
             d = -d
             if d != 1:
-                u = u + ('**%s'%d).rstrip('0').rstrip('.')
+                u = u + '**%s'%format_exponent(d)
             den.append(u)
     res = '*'.join(num)
     if len(den):
@@ -119,7 +125,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Replace division (num/den) with \frac{num}{den}
         res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'^{\g<exp>}',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
     res = re.sub(r'\*','{'+mult+'}',res)
     if paren and not compound:
@@ -152,7 +158,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
         # Not a compound unit
         compound = False
     # Replace exponentiation (**exp) with ^{exp}
-    res = re.sub(r'\*{2,2}(?P<exp>\d+)',r'<sup>\g<exp></sup>',res)
+    res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'<sup>\g<exp></sup>',res)
     # Remove multiplication signs
     res = re.sub(r'\*',mult,res)
     if paren and not compound:
-- 
2.43.0


From 05bea892ee8eac0912adef32f6945065efb820b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 09/71] fix: convert numpy scalar exponents so that unit powers
 do not overflow

Unsigned exponents wrapped around: 1/m**np.uint8(2) became m**254.
---
 quantities/dimensionality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c00190b..e758a2e 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -165,6 +165,9 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            # fixed-width exponents would wrap around
+            other = other.item()
         if other == 0:
             return Dimensionality()
         new = Dimensionality(self)
@@ -177,6 +180,9 @@ class Dimensionality(dict):
             assert np.isscalar(other)
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
+        if isinstance(other, np.generic):
+            # fixed-width exponents would wrap around
+            other = other.item()
         if other == 0:
             self.clear()
             return self
-- 
2.43.0


From a29e3d68a75bbe8a26946d014daa42626b3e40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 10/71] fix: refuse unit strings with a numeric factor instead
 of dropping it

---
 quantities/quantity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index aaedf54..8b0b7b1 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -31,9 +31,11 @@ def validate_unit_quantity(value):
 def validate_dimensionality(value):
     if isinstance(value, str):
         try:
-            return unit_registry[value].dimensionality
+            value = unit_registry[value]
         except (KeyError, UnicodeDecodeError):
-            return unit_registry[str(value)].dimensionality
+            value = unit_registry[str(value)]
+        # e.g. '2*m' is not a unit, the factor must not get lost
+        return validate_unit_quantity(value).dimensionality
     elif isinstance(value, Quantity):
         validate_unit_quantity(value)
         return value.dimensionality
-- 
2.43.0


From 8cf6b992be2af41b7f3cd38f53f6ca1b939c3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 11/71] fix: parse inch and attosecond symbols inside unit
 expressions

'in' and 'as' are Python keywords, so strings such as 'lbf/in**2', which
quantities itself renders, could not be parsed.
---
 quantities/registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index 7603965..3477b97 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -60,6 +60,7 @@ class UnitRegistry:
             self.__context[string] = val
 
     __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
+    __keywords = re.compile(r'\b(in|as)\b')
     __registry = __Registry()
 
     def __getattr__(self, attr):
@@ -78,6 +79,10 @@ class UnitRegistry:
         if label == '': label = 'dimensionless'
         if "%" in label: label = label.replace("%", "percent")
         if label.lower() == "in": label = "inch"
+        # these symbols are reserved words and can not be parsed as names
+        label = self.__keywords.sub(
+            lambda match: {'in': 'inch', 'as': 'attosecond'}[match.group()], label
+        )
 
         return self.__registry[label]
 
-- 
2.43.0


From 3205c0759381674a99312a34f73766c2b51757a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 12/71] fix: statampere is not a multiple of the ampere, let it
 simplify

---
 quantities/units/electromagnetism.py  | 2 +-
 quantities/units/electromagnetism.pyi | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index c22ac87..f5f2b62 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -52,7 +52,7 @@ esu = statcoulomb = statC = franklin = Fr = UnitQuantity(
     symbol='esu',
     aliases=['statcoulombs', 'statC', 'franklin', 'franklins', 'Fr']
 )
-esu_per_second = statampere = UnitCurrent(
+esu_per_second = statampere = UnitQuantity(
     'statampere',
     esu/s,
     symbol='(esu/s)',
diff --git a/quantities/units/electromagnetism.pyi b/quantities/units/electromagnetism.pyi
index bdc6ddb..f3ba38b 100644
--- a/quantities/units/electromagnetism.pyi
+++ b/quantities/units/electromagnetism.pyi
@@ -24,8 +24,8 @@ statcoulomb: UnitQuantity
 statC: UnitQuantity
 franklin: UnitQuantity
 Fr: UnitQuantity
-esu_per_second: UnitCurrent
-statampere: UnitCurrent
+esu_per_second: UnitQuantity
+statampere: UnitQuantity
 ampere_turn: UnitQuantity
 Gi: UnitQuantity
 gilbert: UnitQuantity
-- 
2.43.0


From 225d2977243ba68362505bab148de91081bfd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 13/71] fix: logaddexp and logaddexp2 check both arguments

---
 quantities/dimensionality.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index e758a2e..c6a2f19 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -381,8 +381,12 @@ p_dict[np.log1p] = _d_dimensionless
 p_dict[np.exp] = _d_dimensionless
 p_dict[np.exp2] = _d_dimensionless
 p_dict[np.expm1] = _d_dimensionless
-p_dict[np.logaddexp] = _d_dimensionless
-p_dict[np.logaddexp2] = _d_dimensionless
+
+def _d_logaddexp(q1, q2, out=None):
+    _d_dimensionless(q1)
+    return _d_dimensionless(q2)
+p_dict[np.logaddexp] = _d_logaddexp
+p_dict[np.logaddexp2] = _d_logaddexp
 
 def _d_trig(q1, out=None):
     try:
-- 
2.43.0


From 95adc0858937ad07a9ae0c345e6fb148f7b931c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 14/71] fix: raise ValueError when remainder or hypot get a
 plain first argument

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c6a2f19..78994aa 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -275,7 +275,7 @@ def _d_check_uniform(q1, q2, out=None):
         except ValueError:
             raise ValueError(
                 'quantities must have identical units, got "%s" and "%s"' %
-                (q1.units, q2.units)
+                (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
             )
 
 p_dict[np.add] = _d_check_uniform
-- 
2.43.0


From 74ba7f4c346fcaaf7bbe26aec41bce7458eee9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 15/71] fix: numpy comparison ufuncs return dimensionless truth
 values, arctan2 refuses plain numbers with ValueError

---
 quantities/dimensionality.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 78994aa..c60c3f3 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -284,23 +284,27 @@ p_dict[np.mod] = _d_check_uniform
 p_dict[np.fmod] = _d_check_uniform
 p_dict[np.remainder] = _d_check_uniform
 p_dict[np.hypot] = _d_check_uniform
-p_dict[np.equal] = _d_check_uniform
-p_dict[np.not_equal] = _d_check_uniform
-p_dict[np.less] = _d_check_uniform
-p_dict[np.less_equal] = _d_check_uniform
-p_dict[np.greater] = _d_check_uniform
-p_dict[np.greater_equal] = _d_check_uniform
 p_dict[np.maximum] = _d_check_uniform
 p_dict[np.minimum] = _d_check_uniform
 
+def _d_compare(q1, q2, out=None):
+    _d_check_uniform(q1, q2)
+    return Dimensionality()
+p_dict[np.equal] = _d_compare
+p_dict[np.not_equal] = _d_compare
+p_dict[np.less] = _d_compare
+p_dict[np.less_equal] = _d_compare
+p_dict[np.greater] = _d_compare
+p_dict[np.greater_equal] = _d_compare
+
 def _d_arctan2(q1, q2, out=None):
     try:
         assert q1._dimensionality == q2._dimensionality
         return Dimensionality()
-    except AssertionError:
+    except (AssertionError, AttributeError):
         raise ValueError(
             'quantities must have identical units, got "%s" and "%s"' %
-            (q1.units, q2.units)
+            (getattr(q1, 'units', q1), getattr(q2, 'units', q2))
         )
 
 p_dict[np.arctan2] = _d_arctan2
-- 
2.43.0


From 0e44205bf8217fda53aeb5bad22d703ebbc55d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 16/71] fix: arctan2 expresses both arguments in the same unit

---
 quantities/umath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 16bc412..d093e51 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -349,7 +349,7 @@ def arctan2(x1, x2, out=None):
         )
 
     return Quantity(
-        np.arctan2(x1.magnitude, x2.magnitude, out),
+        np.arctan2(x1.magnitude, x2.rescale(x1.units).magnitude, out),
         radian,
         copy=False
     )
-- 
2.43.0


From 0842c54409c261c9f6246be6d7ebd623b640fb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 17/71] fix: typo in quantitizer for keyword arguments

---
 quantities/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/decorators.py b/quantities/decorators.py
index bd4d0e2..deb5081 100644
--- a/quantities/decorators.py
+++ b/quantities/decorators.py
@@ -110,7 +110,7 @@ def quantitizer(base_function,
             #test if the argument is a quantity
             if isinstance(kwargs[i], Quantity):
                 #convert the units to the base units
-                kwargs[i] = kwargs[i].simplifed()
+                kwargs[i] = kwargs[i].simplified
 
                 #view the array as an ndarray
                 kwargs[i] = kwargs[i].magnitude
-- 
2.43.0


From e010f96dbf865e51d0dfb59c8a94f8b2f32b7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 18/71] fix: keep validation active when Python runs optimised

With python -O all assert statements are removed, and with them every
dimension check: pq.m.rescale('s') silently returned 1 s.
---
 quantities/dimensionality.py    | 24 ++++++++++++------------
 quantities/quantity.py          | 18 +++++++++---------
 quantities/registry.py          |  4 ++--
 quantities/uncertainquantity.py |  2 +-
 quantities/unitquantity.py      |  6 +++---
 5 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index c60c3f3..22a2f44 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -14,7 +14,7 @@ _np_version = tuple(map(int, np.__version__.split(".dev")[0].split(".")))
 
 def assert_isinstance(obj, types):
     try:
-        assert isinstance(obj, types)
+        if not isinstance(obj, types): raise AssertionError
     except AssertionError:
         raise TypeError(
             f"arg {obj!r} must be of type {types!r}, got {type(obj)!r}"
@@ -69,7 +69,7 @@ class Dimensionality(dict):
     def __add__(self, other):
         assert_isinstance(other, Dimensionality)
         try:
-            assert self == other
+            if not self == other: raise AssertionError
         except AssertionError:
             raise ValueError(
                 'can not add units of %s and %s'\
@@ -82,7 +82,7 @@ class Dimensionality(dict):
     def __iadd__(self, other):
         assert_isinstance(other, Dimensionality)
         try:
-            assert self == other
+            if not self == other: raise AssertionError
         except AssertionError:
             raise ValueError(
                 'can not add units of %s and %s'\
@@ -93,7 +93,7 @@ class Dimensionality(dict):
     def __sub__(self, other):
         assert_isinstance(other, Dimensionality)
         try:
-            assert self == other
+            if not self == other: raise AssertionError
         except AssertionError:
             raise ValueError(
                 'can not subtract units of %s and %s'\
@@ -106,7 +106,7 @@ class Dimensionality(dict):
     def __isub__(self, other):
         assert_isinstance(other, Dimensionality)
         try:
-            assert self == other
+            if not self == other: raise AssertionError
         except AssertionError:
             raise ValueError(
                 'can not add units of %s and %s'\
@@ -162,7 +162,7 @@ class Dimensionality(dict):
 
     def __pow__(self, other):
         try:
-            assert np.isscalar(other)
+            if not np.isscalar(other): raise AssertionError
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
         if isinstance(other, np.generic):
@@ -177,7 +177,7 @@ class Dimensionality(dict):
 
     def __ipow__(self, other):
         try:
-            assert np.isscalar(other)
+            if not np.isscalar(other): raise AssertionError
         except AssertionError:
             raise TypeError('exponent must be a scalar, got %r' % other)
         if isinstance(other, np.generic):
@@ -251,7 +251,7 @@ p_dict[np.floor_divide] = _d_divide
 
 def _d_check_uniform(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
+        if not q1._dimensionality == q2._dimensionality: raise AssertionError
         return q1.dimensionality
     except AssertionError:
         raise ValueError(
@@ -299,7 +299,7 @@ p_dict[np.greater_equal] = _d_compare
 
 def _d_arctan2(q1, q2, out=None):
     try:
-        assert q1._dimensionality == q2._dimensionality
+        if not q1._dimensionality == q2._dimensionality: raise AssertionError
         return Dimensionality()
     except (AssertionError, AttributeError):
         raise ValueError(
@@ -356,7 +356,7 @@ p_dict[np.sqrt] = _d_sqrt
 
 def _d_radians(q1, out=None):
     try:
-        assert q1.units == unit_registry['degree']
+        if not q1.units == unit_registry['degree']: raise AssertionError
     except AssertionError:
         raise ValueError(
             'expected units of degrees, got "%s"' % q1._dimensionality
@@ -366,7 +366,7 @@ p_dict[np.radians] = _d_radians
 
 def _d_degrees(q1, out=None):
     try:
-        assert q1.units == unit_registry['radian']
+        if not q1.units == unit_registry['radian']: raise AssertionError
     except AssertionError:
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
@@ -394,7 +394,7 @@ p_dict[np.logaddexp2] = _d_logaddexp
 
 def _d_trig(q1, out=None):
     try:
-        assert q1.units == unit_registry['radian']
+        if not q1.units == unit_registry['radian']: raise AssertionError
     except AssertionError:
         raise ValueError(
             'expected units of radians, got "%s"' % q1._dimensionality
diff --git a/quantities/quantity.py b/quantities/quantity.py
index 8b0b7b1..993cf6e 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -18,9 +18,9 @@ PREFERRED = []  # List of preferred quantities for each symbol,
 
 def validate_unit_quantity(value):
     try:
-        assert isinstance(value, Quantity)
-        assert value.shape in ((), (1, ))
-        assert value.magnitude == 1
+        if not isinstance(value, Quantity): raise AssertionError
+        if value.shape not in ((), (1, )): raise AssertionError
+        if value.magnitude != 1: raise AssertionError
     except AssertionError:
         raise ValueError(
                 'units must be a scalar Quantity with unit magnitude, got %s'\
@@ -52,7 +52,7 @@ def get_conversion_factor(from_u, to_u):
     validate_unit_quantity(to_u)
     from_u = from_u._reference
     to_u = to_u._reference
-    assert from_u.dimensionality == to_u.dimensionality
+    if not from_u.dimensionality == to_u.dimensionality: raise AssertionError
     return from_u.magnitude / to_u.magnitude
 
 def scale_other_units(f):
@@ -71,7 +71,7 @@ def protected_multiplication(f):
     def g(self, other, *args):
         if getattr(other, 'dimensionality', None):
             try:
-                assert not isinstance(self.base, Quantity)
+                if isinstance(self.base, Quantity): raise AssertionError
             except AssertionError:
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
@@ -84,7 +84,7 @@ def check_uniform(f):
             raise ValueError("exponent must be dimensionless")
         other = np.asarray(other)
         try:
-            assert other.min() == other.max()
+            if other.min() != other.max(): raise AssertionError
         except AssertionError:
             raise ValueError('Quantities must be raised to a uniform power')
         return f(self, other, *args)
@@ -95,7 +95,7 @@ def protected_power(f):
     def g(self, other, *args):
         if other != 1:
             try:
-                assert not isinstance(self.base, Quantity)
+                if isinstance(self.base, Quantity): raise AssertionError
             except AssertionError:
                 raise ValueError('can not modify units of a view of a Quantity')
         return f(self, other, *args)
@@ -188,11 +188,11 @@ class Quantity(np.ndarray):
     @units.setter
     def units(self, units):
         try:
-            assert not isinstance(self.base, Quantity)
+            if isinstance(self.base, Quantity): raise AssertionError
         except AssertionError:
             raise ValueError('can not modify units of a view of a Quantity')
         try:
-            assert self.flags.writeable
+            if not self.flags.writeable: raise AssertionError
         except AssertionError:
             raise ValueError('array is not writeable')
         to_dims = validate_dimensionality(units)
diff --git a/quantities/registry.py b/quantities/registry.py
index 3477b97..325a813 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -47,9 +47,9 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
-            assert isinstance(string, str)
+            if not isinstance(string, str): raise AssertionError
             try:
-                assert string not in self.__context
+                if string in self.__context: raise AssertionError
             except AssertionError:
                 if val == self.__context[string]:
                     return
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index c5776d0..b742d42 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -58,7 +58,7 @@ class UncertainQuantity(Quantity):
         if not isinstance(uncertainty, Quantity):
             uncertainty = Quantity(uncertainty)
         try:
-            assert self.shape == uncertainty.shape
+            if self.shape != uncertainty.shape: raise AssertionError
         except AssertionError:
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 6eea916..a10957d 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -33,11 +33,11 @@ class UnitQuantity(Quantity):
         aliases=[], doc=None
     ):
         try:
-            assert isinstance(name, str)
+            if not isinstance(name, str): raise AssertionError
         except AssertionError:
             raise TypeError('name must be a string, got %s (not unicode)'%name)
         try:
-            assert symbol is None or isinstance(symbol, str)
+            if not (symbol is None or isinstance(symbol, str)): raise AssertionError
         except AssertionError:
             raise TypeError(
                 'symbol must be a string, '
@@ -487,7 +487,7 @@ def set_default_units(
     if system is not None:
         system = system.lower()
         try:
-            assert system in ('si', 'cgs')
+            if system not in ('si', 'cgs'): raise AssertionError
         except AssertionError:
             raise ValueError('system must be "SI" or "cgs", got "%s"' % system)
         if system == 'si':
-- 
2.43.0


From 3dbf4ed0e159644e50179db1ce9fa7295bb2b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 19/71] fix: set_default_units raises TypeError for a unit of
 another dimension

---
 quantities/unitquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index a10957d..02e1227 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -328,7 +328,7 @@ class IrreducibleUnit(UnitQuantity):
         try:
             # check that conversions are possible:
             get_conversion_factor(cls._default_unit, unit)
-        except ValueError:
+        except (AssertionError, ValueError):
             raise TypeError('default unit must be of same type')
         cls._default_unit = unit
 
-- 
2.43.0


From 049a7226ae79b0d975c5be7a7a281be2f86125d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 20/71] fix: uncertainty propagation for exact operands, zeros
 and negative values

Adding or subtracting an exact quantity raised AttributeError, zero values
gave a NaN uncertainty and negative results or exponents a negative one.
---
 quantities/uncertainquantity.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index b742d42..31e6e22 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -9,6 +9,14 @@ from .quantity import Quantity, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
+def get_uncertainty(q):
+    try:
+        return q.uncertainty
+    except AttributeError:
+        # exact quantity
+        return Quantity(np.zeros(q.shape), q._dimensionality)
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -91,7 +99,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = (self.uncertainty**2+get_uncertainty(other)**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -103,7 +111,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = (self.uncertainty**2+other.uncertainty**2)**0.5
+        u = (self.uncertainty**2+get_uncertainty(other)**2)**0.5
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
@@ -118,10 +126,9 @@ class UncertainQuantity(Quantity):
     def __mul__(self, other):
         res = super().__mul__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            ou = other.uncertainty
+            u = ((self.uncertainty*other.view(Quantity))**2
+                 + (self.view(Quantity)*ou)**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2*other**2)**0.5
@@ -140,10 +147,9 @@ class UncertainQuantity(Quantity):
     def __truediv__(self, other):
         res = super().__truediv__(other)
         try:
-            sru = self.relative_uncertainty
-            oru = other.relative_uncertainty
-            ru = (sru**2+oru**2)**0.5
-            u = res.view(Quantity) * ru
+            oru = other.uncertainty/other.view(Quantity)
+            u = ((self.uncertainty/other.view(Quantity))**2
+                 + (res.view(Quantity)*oru)**2)**0.5
         except AttributeError:
             other = np.asanyarray(other)
             u = (self.uncertainty**2/other**2)**0.5
@@ -162,7 +168,7 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = res.view(Quantity) * other * self.relative_uncertainty
+        res.uncertainty = abs(other * self.view(Quantity)**(other-1)) * self.uncertainty
         return res
 
     @with_doc(Quantity.__getitem__, use_header=False)
-- 
2.43.0


From 52233a13083b4d96702646436115f7adefa624d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 21/71] fix: unit objects on the left propagate the uncertainty
 of the right operand

---
 quantities/unitquantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 02e1227..c080018 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -171,7 +171,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__add__, use_header=False)
     def __add__(self, other):
-        return self.view(Quantity).__add__(other)
+        return self.view(Quantity) + other
 
     @with_doc(Quantity.__radd__, use_header=False)
     def __radd__(self, other):
@@ -182,7 +182,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__sub__, use_header=False)
     def __sub__(self, other):
-        return self.view(Quantity).__sub__(other)
+        return self.view(Quantity) - other
 
     @with_doc(Quantity.__rsub__, use_header=False)
     def __rsub__(self, other):
@@ -204,7 +204,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__mul__, use_header=False)
     def __mul__(self, other):
-        return self.view(Quantity).__mul__(other)
+        return self.view(Quantity) * other
 
     @with_doc(Quantity.__rmul__, use_header=False)
     def __rmul__(self, other):
@@ -212,7 +212,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__truediv__, use_header=False)
     def __truediv__(self, other):
-        return self.view(Quantity).__truediv__(other)
+        return self.view(Quantity) / other
 
     @with_doc(Quantity.__rtruediv__, use_header=False)
     def __rtruediv__(self, other):
-- 
2.43.0


From 337324c1efb0560e3406b0cd503c252242ea59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 22/71] fix: assigning units to, converting and rebuilding an
 UncertainQuantity

Assigning units raised AttributeError, UncertainQuantity(uq) failed and
rescale() did not accept a missing argument.
---
 quantities/uncertainquantity.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 31e6e22..4b591dc 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -34,17 +34,14 @@ class UncertainQuantity(Quantity):
         if uncertainty is not None:
             ret.uncertainty = Quantity(uncertainty, ret._dimensionality)
         elif isinstance(data, UncertainQuantity):
-            is_copy = id(data) == id(ret)
-            if is_copy or ret._dimensionality != uncertainty._dimensionality:
-                uncertainty = data.uncertainty.rescale(ret.units)
-            ret.uncertainty = uncertainty
+            ret.uncertainty = data.uncertainty.rescale(ret.units)
 
         return ret
 
     @Quantity.units.setter  # type: ignore[attr-defined]
     def units(self, units):
-        super()._set_units(units)
-        self.uncertainty.units = self._dimensionality
+        Quantity.units.fset(self, units)
+        self.uncertainty = self.uncertainty.rescale(self._dimensionality)
 
     @property
     def _reference(self):
@@ -78,10 +75,10 @@ class UncertainQuantity(Quantity):
         return self.uncertainty.magnitude/self.magnitude
 
     @with_doc(Quantity.rescale, use_header=False)
-    def rescale(self, units, dtype=None):
+    def rescale(self, units=None, dtype=None):
         cls = UncertainQuantity
         ret = super(cls, self).rescale(units, dtype=dtype).view(cls)
-        ret.uncertainty = self.uncertainty.rescale(units, dtype=dtype)
+        ret.uncertainty = self.uncertainty.rescale(ret._dimensionality, dtype=dtype)
         return ret
 
     def __array_finalize__(self, obj):
-- 
2.43.0


From d740ea2e3c83721fbccba73ae9f6ec7cc5d3440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 23/71] fix: protect the units of squeezed, real, imaginary and
 uncertain views

They share memory with the original quantity, but their units could be
changed, which rescaled the original's values without its units.
---
 quantities/quantity.py          | 10 ++++------
 quantities/uncertainquantity.py | 12 +++++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 993cf6e..c56fe50 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -161,7 +161,7 @@ class Quantity(np.ndarray):
 
     @property
     def real(self):
-        return Quantity(self.magnitude.real, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).real
 
     @real.setter
     def real(self, r):
@@ -169,7 +169,7 @@ class Quantity(np.ndarray):
 
     @property
     def imag(self):
-        return Quantity(self.magnitude.imag, self.dimensionality)
+        return super(Quantity, self.view(Quantity)).imag
 
     @imag.setter
     def imag(self, i):
@@ -714,10 +714,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.squeeze)
     def squeeze(self, axis=None):
-        return Quantity(
-            self.magnitude.squeeze(axis),
-            self.dimensionality
-        )
+        # a view of a Quantity, so that its units are protected
+        return self.view(Quantity).reshape(self.magnitude.squeeze(axis).shape)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 4b591dc..0482860 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -170,11 +170,13 @@ class UncertainQuantity(Quantity):
 
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
-        return UncertainQuantity(
-            self.magnitude[key],
-            self._dimensionality,
-            self.uncertainty[key]
-        )
+        ret = self.magnitude[key]
+        if np.may_share_memory(ret, self):
+            # a view of a Quantity, so that its units are protected
+            return UncertainQuantity(
+                self.view(Quantity)[key], uncertainty=self.uncertainty[key]
+            )
+        return UncertainQuantity(ret, self._dimensionality, self.uncertainty[key])
 
     @with_doc(Quantity.__repr__, use_header=False)
     def __repr__(self):
-- 
2.43.0


From 6491ce9a9f2b79859817dd4a6287f9548424c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 24/71] fix: honour axis in minimum and maximum of uncertain
 quantities

---
 quantities/uncertainquantity.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 0482860..551e6f0 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -239,41 +239,47 @@ class UncertainQuantity(Quantity):
     def sqrt(self, out=None):
         return self**0.5
 
+    def _select(self, func, axis):
+        if axis is None:
+            return self[np.unravel_index(func(self.magnitude), self.shape)]
+        idx = np.expand_dims(func(self.magnitude, axis), axis)
+        return UncertainQuantity(
+            np.take_along_axis(self.magnitude, idx, axis).squeeze(axis),
+            self.dimensionality,
+            np.take_along_axis(self.uncertainty.magnitude, idx, axis).squeeze(axis)
+        )
+
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmax, axis)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmax(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmax, axis)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        idx = np.unravel_index(np.argmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.argmin, axis)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        idx = np.unravel_index(np.nanargmin(self.magnitude), self.shape)
-        return self[idx]
+        return self._select(np.nanargmin, axis)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-        return self.magnitude.argmin()
+        return self.magnitude.argmin(axis, out)
 
     @with_doc(np.ndarray.argmax)
     def argmax(self,axis=None, out=None):
-        return self.magnitude.argmax()
+        return self.magnitude.argmax(axis, out)
 
     @with_doc(np.nanargmin)
     def nanargmin(self,axis=None, out=None):
-        return np.nanargmin(self.magnitude)
+        return np.nanargmin(self.magnitude, axis, out)
 
     @with_doc(np.nanargmax)
     def nanargmax(self,axis=None, out=None):
-        return np.nanargmax(self.magnitude)
+        return np.nanargmax(self.magnitude, axis, out)
 
     def __setstate__(self, state):
         ndarray_state = state[:-2]
-- 
2.43.0


From 38c3a72e07d911a5718b724946606cff45d4ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:41 +0000
Subject: [PATCH 25/71] fix: nansum and nanmean ignore the uncertainty of
 ignored elements

---
 quantities/uncertainquantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 551e6f0..586ea07 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -215,7 +215,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nansum(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            (np.nansum(self.uncertainty.magnitude**2, axis))**0.5
+            (np.nansum(np.where(np.isnan(self.magnitude), 0, self.uncertainty.magnitude)**2, axis))**0.5
         )
 
     @with_doc(np.ndarray.mean)
@@ -232,7 +232,7 @@ class UncertainQuantity(Quantity):
         return UncertainQuantity(
             np.nanmean(self.magnitude, axis, dtype, out),
             self.dimensionality,
-            ((1.0/size)**2 * np.nansum(np.nan_to_num(self.uncertainty.magnitude)**2, axis))**0.5
+            ((1.0/size)**2 * np.nansum(np.where(np.isnan(self.magnitude), 0, np.nan_to_num(self.uncertainty.magnitude))**2, axis))**0.5
         )
 
     @with_doc(np.sqrt)
-- 
2.43.0


From 546f68aa444dcd704ef6e1ee569629e09ce419d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 26/71] fix: in-place operators propagate uncertainty

---
 quantities/uncertainquantity.py | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 586ea07..927c1a7 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -168,6 +168,41 @@ class UncertainQuantity(Quantity):
         res.uncertainty = abs(other * self.view(Quantity)**(other-1)) * self.uncertainty
         return res
 
+    @with_doc(Quantity.__iadd__, use_header=False)
+    def __iadd__(self, other):
+        uncertainty = (self + other).uncertainty
+        res = super().__iadd__(other)
+        res._uncertainty = uncertainty
+        return res
+
+    @with_doc(Quantity.__isub__, use_header=False)
+    def __isub__(self, other):
+        uncertainty = (self - other).uncertainty
+        res = super().__isub__(other)
+        res._uncertainty = uncertainty
+        return res
+
+    @with_doc(Quantity.__imul__, use_header=False)
+    def __imul__(self, other):
+        uncertainty = (self * other).uncertainty
+        res = super().__imul__(other)
+        res._uncertainty = uncertainty
+        return res
+
+    @with_doc(Quantity.__itruediv__, use_header=False)
+    def __itruediv__(self, other):
+        uncertainty = (self / other).uncertainty
+        res = super().__itruediv__(other)
+        res._uncertainty = uncertainty
+        return res
+
+    @with_doc(Quantity.__ipow__, use_header=False)
+    def __ipow__(self, other):
+        uncertainty = (self ** other).uncertainty
+        res = super().__ipow__(other)
+        res._uncertainty = uncertainty
+        return res
+
     @with_doc(Quantity.__getitem__, use_header=False)
     def __getitem__(self, key):
         ret = self.magnitude[key]
-- 
2.43.0


From 6422aa454dae050292989fec7ce7c9561a19cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 27/71] fix: astype keeps the uncertainty and honours the dtype

---
 quantities/quantity.py          | 4 ++--
 quantities/uncertainquantity.py | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index c56fe50..43ce14e 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -287,9 +287,9 @@ class Quantity(np.ndarray):
         # might be related to numpy ticket # 826
         if not isinstance(ret, type(self)):
             if self.__array_priority__ >= Quantity.__array_priority__:
-                ret = type(self)(ret, self._dimensionality, dtype=self.dtype)
+                ret = type(self)(ret, self._dimensionality, dtype=ret.dtype)
             else:
-                ret = Quantity(ret, self._dimensionality, dtype=self.dtype)
+                ret = Quantity(ret, self._dimensionality, dtype=ret.dtype)
 
         return ret
 
diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 927c1a7..fe7204d 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -331,6 +331,12 @@ class UncertainQuantity(Quantity):
         state = state + (self._uncertainty,)
         return reconstruct, reconstruct_args, state
 
+    @with_doc(np.ndarray.astype)
+    def astype(self, dtype=None, **kwargs):
+        ret = super().astype(dtype, **kwargs)
+        ret._uncertainty = self._uncertainty.copy()
+        return ret
+
     def copy(self, order='C'):
         ret = super().copy(order)
         ret._uncertainty = self._uncertainty.copy()
-- 
2.43.0


From 4f2518bc2de917285096ccafe773c6cc0bbbddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 28/71] fix: building a quantity from a unit object honours
 class and dtype

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 43ce14e..d73e743 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -126,7 +126,7 @@ class Quantity(np.ndarray):
             if units:
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
-                return 1*data
+                data = 1*data
             return np.asanyarray(data, dtype=dtype).view(cls)
 
         ret = np.asarray(data, dtype=dtype).view(cls)
-- 
2.43.0


From 56029244eea56a8e2ccd439bb9d42a6757729fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 29/71] fix: the pond is a gram-force

---
 quantities/units/force.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/force.py b/quantities/units/force.py
index c903969..7be0d23 100644
--- a/quantities/units/force.py
+++ b/quantities/units/force.py
@@ -28,7 +28,7 @@ dyne = UnitQuantity(
 )
 pond = UnitQuantity(
     'pond',
-    g_0*kg,
+    g_0*gram,
     symbol='p',
     aliases=['ponds']
 )
-- 
2.43.0


From e2f880e89cef568d357bccc7e281a996701df8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 30/71] fix: aliases of foot and oersted are registered

---
 quantities/units/electromagnetism.py | 2 +-
 quantities/units/length.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/units/electromagnetism.py b/quantities/units/electromagnetism.py
index f5f2b62..faed216 100644
--- a/quantities/units/electromagnetism.py
+++ b/quantities/units/electromagnetism.py
@@ -264,7 +264,7 @@ Oe = oersted = UnitQuantity(
     'oersted',
     1000/(4*pi)*A/m,
     symbol='Oe',
-    aliases=['aliases']
+    aliases=['oersteds']
 )
 statfarad = statF = stF = UnitQuantity(
     'statfarad',
diff --git a/quantities/units/length.py b/quantities/units/length.py
index 5634f75..e8c2d24 100644
--- a/quantities/units/length.py
+++ b/quantities/units/length.py
@@ -76,7 +76,7 @@ ft = foot = international_foot = UnitLength(
     'foot',
     12*inch,
     symbol='ft',
-    aliases=['feet', 'international_foot' 'international_feet']
+    aliases=['feet', 'international_foot', 'international_feet']
 )
 mi = mile = international_mile = UnitLength(
     'mile',
-- 
2.43.0


From ea74a8a2d9586e34d70806c5ce9b172984ee8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 31/71] fix: fill does not change the units of a view

---
 quantities/quantity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index d73e743..488bd67 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -549,11 +549,11 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.fill)
     def fill(self, value):
+        dim = getattr(value, 'dimensionality', self._dimensionality)
+        if dim != self._dimensionality and isinstance(self.base, Quantity):
+            raise ValueError('can not modify units of a view of a Quantity')
         self.magnitude.fill(value)
-        try:
-            self._dimensionality = value.dimensionality
-        except AttributeError:
-            pass
+        self._dimensionality = dim
 
     @with_doc(np.ndarray.put)
     def put(self, indicies, values, mode='raise', dtype='d'):
-- 
2.43.0


From 1407ce792ca377991ab13a18f3e565a4b2bf4c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 32/71] fix: an explicit empty dimensionality is a target unit,
 not the absence of one

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 488bd67..d009554 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -123,7 +123,7 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units:
+            if units or isinstance(units, Dimensionality):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 data = 1*data
-- 
2.43.0


From 8b511baed21dbb25e654e19c2baf6a352fb37ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 33/71] fix: in-place power accepts the same uniform array
 exponents as power

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index d009554..8eedcc4 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -93,7 +93,7 @@ def check_uniform(f):
 def protected_power(f):
     @wraps(f)
     def g(self, other, *args):
-        if other != 1:
+        if np.any(np.asarray(other) != 1):
             try:
                 if isinstance(self.base, Quantity): raise AssertionError
             except AssertionError:
-- 
2.43.0


From 9caa35b57ed7410884b2da4309144d94c3e0fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 34/71] fix: a dimensionality can be divided in place by itself

---
 quantities/dimensionality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 22a2f44..8a2c348 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -151,7 +151,7 @@ class Dimensionality(dict):
 
     def __itruediv__(self, other):
         assert_isinstance(other, Dimensionality)
-        for unit, power in other.items():
+        for unit, power in list(other.items()):
             try:
                 self[unit] -= power
                 if self[unit] == 0:
-- 
2.43.0


From 39296c814314748a82386414a1143a0aa5781301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 35/71] fix: np.searchsorted checks the units of the values

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 8eedcc4..06c86b5 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -577,14 +577,14 @@ class Quantity(np.ndarray):
         return self.magnitude.argsort(axis, kind, order)
 
     @with_doc(np.ndarray.searchsorted)
-    def searchsorted(self,values, side='left'):
+    def searchsorted(self,values, side='left', sorter=None):
         if not isinstance (values, Quantity):
             values = Quantity(values)
 
         if values._dimensionality != self._dimensionality:
             raise ValueError("values does not have the same units as self")
 
-        return self.magnitude.searchsorted(values.magnitude, side)
+        return self.magnitude.searchsorted(values.magnitude, side, sorter)
 
     @with_doc(np.ndarray.nonzero)
     def nonzero(self):
-- 
2.43.0


From 8af4a862b8b36ded67b4adcce37f73ff13e7738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 36/71] fix: np.argsort of a quantity returns plain indices

---
 quantities/quantity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 06c86b5..1f7107a 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -573,8 +573,8 @@ class Quantity(np.ndarray):
     # how it would function, so for now it will not be implemented
 
     @with_doc(np.ndarray.argsort)
-    def argsort(self, axis=-1, kind='quick', order=None):
-        return self.magnitude.argsort(axis, kind, order)
+    def argsort(self, axis=-1, kind='quick', order=None, **kwargs):
+        return self.magnitude.argsort(axis, kind, order, **kwargs)
 
     @with_doc(np.ndarray.searchsorted)
     def searchsorted(self,values, side='left', sorter=None):
-- 
2.43.0


From 8c2d0a429ba90f0a01050957dd1513f582201b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 37/71] fix: exponents of units must be finite real numbers

---
 quantities/dimensionality.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 8a2c348..8e9b1d0 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -21,6 +21,14 @@ def assert_isinstance(obj, types):
         )
 
 
+def assert_real_exponent(exponent):
+    # units with any other exponent could not be compared or displayed
+    if isinstance(exponent, (complex, str, bytes)):
+        raise ValueError('exponent must be a real number, got %r' % exponent)
+    if not -np.inf < exponent < np.inf:
+        raise ValueError('exponent must be finite, got %r' % exponent)
+
+
 class Dimensionality(dict):
 
     """
@@ -168,6 +176,8 @@ class Dimensionality(dict):
         if isinstance(other, np.generic):
             # fixed-width exponents would wrap around
             other = other.item()
+        if self:
+            assert_real_exponent(other)
         if other == 0:
             return Dimensionality()
         new = Dimensionality(self)
@@ -183,6 +193,8 @@ class Dimensionality(dict):
         if isinstance(other, np.generic):
             # fixed-width exponents would wrap around
             other = other.item()
+        if self:
+            assert_real_exponent(other)
         if other == 0:
             self.clear()
             return self
-- 
2.43.0


From ec5d5f0667f280d43d1468afd011e32e53394635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 38/71] fix: a compound unit can only be made from an
 expression that denotes a unit

---
 quantities/unitquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index c080018..09d8815 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -383,7 +383,10 @@ class CompoundUnit(UnitQuantity):
     _primary_order = 99
 
     def __new__(cls, name):
-        return UnitQuantity.__new__(cls, name, unit_registry[name])
+        definition = unit_registry[name]
+        if not isinstance(definition, Quantity):
+            raise LookupError('Unable to parse units: "%s"' % name)
+        return UnitQuantity.__new__(cls, name, definition)
 
     def __init__(self, name):
         # do not register
-- 
2.43.0


From affe6ba724d5d01ff235eb9bcdb9c1d669124187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 39/71] fix: fractional exponents are stored as numbers that
 can be displayed

---
 quantities/dimensionality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantities/dimensionality.py b/quantities/dimensionality.py
index 8e9b1d0..5d69c44 100644
--- a/quantities/dimensionality.py
+++ b/quantities/dimensionality.py
@@ -178,6 +178,9 @@ class Dimensionality(dict):
             other = other.item()
         if self:
             assert_real_exponent(other)
+            if not isinstance(other, int):
+                # fractions and decimals are not displayed as an exponent
+                other = float(other)
         if other == 0:
             return Dimensionality()
         new = Dimensionality(self)
@@ -195,6 +198,9 @@ class Dimensionality(dict):
             other = other.item()
         if self:
             assert_real_exponent(other)
+            if not isinstance(other, int):
+                # fractions and decimals are not displayed as an exponent
+                other = float(other)
         if other == 0:
             self.clear()
             return self
-- 
2.43.0


From 7a609ff45065274c31c275cbf119fc005ed2e545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 40/71] fix: a label can not be registered again for a unit
 with another definition

---
 quantities/registry.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 325a813..fefe7da 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -51,7 +51,7 @@ class UnitRegistry:
             try:
                 if string in self.__context: raise AssertionError
             except AssertionError:
-                if val == self.__context[string]:
+                if self.__same(val, self.__context[string]):
                     return
                 raise KeyError(
                     '%s has already been registered for %s'
@@ -59,6 +59,14 @@ class UnitRegistry:
                 )
             self.__context[string] = val
 
+        @staticmethod
+        def __same(new, old):
+            if not new == old:
+                return False
+            # units of the same name are equal, whatever their definition is
+            new, old = (getattr(i, 'definition', i) for i in (new, old))
+            return new is old or bool(new == old)
+
     __regex = re.compile(r'([A-Za-z])\.([A-Za-z])')
     __keywords = re.compile(r'\b(in|as)\b')
     __registry = __Registry()
-- 
2.43.0


From ac15498d7ecc60f3bc8ea2499a51542194800207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 41/71] fix: numpy scalars on the left of an uncertain quantity
 keep its uncertainty

---
 quantities/uncertainquantity.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index fe7204d..71af06c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -92,6 +92,21 @@ class UncertainQuantity(Quantity):
             )
         )
 
+    def __array_wrap__(self, obj, context=None, return_scalar=False):
+        ret = super().__array_wrap__(obj, context, return_scalar)
+        if context is not None and isinstance(ret, UncertainQuantity):
+            # numpy's scalars do not leave the operation to the operators below
+            op = self._reflected.get(context[0])
+            if op and not isinstance(context[1][0], Quantity):
+                left, right = context[1][:2]
+                ret._uncertainty = getattr(right, op)(left)._uncertainty
+        return ret
+
+    _reflected = {
+        np.add: '__radd__', np.subtract: '__rsub__',
+        np.multiply: '__rmul__', np.true_divide: '__rtruediv__'
+    }
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
-- 
2.43.0


From 0052b1a6dbcc87b0c295e4a4ea21b0df0e43906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 42/71] fix: uncertainties are combined without leaving the
 range of the data type

---
 quantities/uncertainquantity.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 71af06c..2748f9e 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -17,6 +17,13 @@ def get_uncertainty(q):
         return Quantity(np.zeros(q.shape), q._dimensionality)
 
 
+def quadrature(u1, u2):
+    # squares do not fit into narrow data types
+    return Quantity(
+        np.hypot(u1.magnitude, u2.magnitude), u1._dimensionality
+    )
+
+
 class UncertainQuantity(Quantity):
 
     # TODO: what is an appropriate value?
@@ -111,7 +118,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __add__(self, other):
         res = super().__add__(other)
-        u = (self.uncertainty**2+get_uncertainty(other)**2)**0.5
+        u = quadrature(self.uncertainty, get_uncertainty(other))
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__radd__, use_header=False)
@@ -123,7 +130,7 @@ class UncertainQuantity(Quantity):
     @scale_other_units
     def __sub__(self, other):
         res = super().__sub__(other)
-        u = (self.uncertainty**2+get_uncertainty(other)**2)**0.5
+        u = quadrature(self.uncertainty, get_uncertainty(other))
         return UncertainQuantity(res, uncertainty=u)
 
     @with_doc(Quantity.__rsub__, use_header=False)
@@ -139,11 +146,11 @@ class UncertainQuantity(Quantity):
         res = super().__mul__(other)
         try:
             ou = other.uncertainty
-            u = ((self.uncertainty*other.view(Quantity))**2
-                 + (self.view(Quantity)*ou)**2)**0.5
+            u = quadrature(
+                self.uncertainty*other.view(Quantity), self.view(Quantity)*ou
+            )
         except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2*other**2)**0.5
+            u = abs(self.uncertainty*other)
 
         res._uncertainty = u
         return res
@@ -160,11 +167,11 @@ class UncertainQuantity(Quantity):
         res = super().__truediv__(other)
         try:
             oru = other.uncertainty/other.view(Quantity)
-            u = ((self.uncertainty/other.view(Quantity))**2
-                 + (res.view(Quantity)*oru)**2)**0.5
+            u = quadrature(
+                self.uncertainty/other.view(Quantity), res.view(Quantity)*oru
+            )
         except AttributeError:
-            other = np.asanyarray(other)
-            u = (self.uncertainty**2/other**2)**0.5
+            u = abs(self.uncertainty/other)
 
         res._uncertainty = u
         return res
-- 
2.43.0


From 8c6b987b96704d7ba9ff70f1239f4e9d2f9cf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 43/71] fix: uncertain quantities can be raised to any power

---
 quantities/uncertainquantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 2748f9e..1c01bf3 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -187,7 +187,10 @@ class UncertainQuantity(Quantity):
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
         res = super().__pow__(other)
-        res.uncertainty = abs(other * self.view(Quantity)**(other-1)) * self.uncertainty
+        # on magnitudes, because other-1+1 is not always other
+        other = np.asarray(other)
+        u = abs(other * self.magnitude**(other-1.0)) * self.uncertainty.magnitude
+        res.uncertainty = Quantity(u, res._dimensionality)
         return res
 
     @with_doc(Quantity.__iadd__, use_header=False)
-- 
2.43.0


From e35dbe8c5afeeac3506defc470918557da7a54df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 44/71] fix: the drachm had a blank unicode symbol, so unicode
 renderings lost the unit

---
 quantities/units/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/units/mass.py b/quantities/units/mass.py
index 02c67d8..fffb71a 100644
--- a/quantities/units/mass.py
+++ b/quantities/units/mass.py
@@ -123,7 +123,7 @@ dr = dram = UnitMass(
 drachm = apdram = UnitMass(
     'drachm',
     60*gr,
-    u_symbol='  ',
+    u_symbol='ʒ',
     aliases=['drachms', 'apdram', 'apdrams'],
     doc='also known as the apothecary dram'
 )
-- 
2.43.0


From cfc0a141d475995764140fd1431e869451fdeda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 45/71] fix: symbols of constants that stood for another
 quantity

---
 quantities/constants/atomicunits.py | 6 +++---
 quantities/constants/deuteron.py    | 2 +-
 quantities/constants/muon.py        | 4 ++--
 quantities/constants/tau.py         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantities/constants/atomicunits.py b/quantities/constants/atomicunits.py
index 8e53e93..22b4a63 100644
--- a/quantities/constants/atomicunits.py
+++ b/quantities/constants/atomicunits.py
@@ -112,13 +112,13 @@ atomic_unit_of_magnetic_dipole_moment = UnitConstant(
 atomic_unit_of_magnetic_flux_density = UnitConstant(
     'atomic_unit_of_magnetic_flux_density',
     _cd('atomic unit of magnetic flux density'),
-    symbol='(hbar*e/a_0**2)',
-    u_symbol='(ħ·e/a₀²)'
+    symbol='(hbar/(e*a_0**2))',
+    u_symbol='(ħ/(e·a₀²))'
 )
 atomic_unit_of_magnetizability = UnitConstant(
     'atomic_unit_of_magnetizability',
     _cd('atomic unit of magnetizability'),
-    symbol='(e**2a_0**2/m_e)',
+    symbol='(e**2*a_0**2/m_e)',
     u_symbol='(e²·a₀²/mₑ)'
 )
 m_e = atomic_unit_of_mass = UnitConstant(
diff --git a/quantities/constants/deuteron.py b/quantities/constants/deuteron.py
index a6846a0..2b0d378 100644
--- a/quantities/constants/deuteron.py
+++ b/quantities/constants/deuteron.py
@@ -54,7 +54,7 @@ deuteron_electron_mass_ratio = UnitConstant(
 deuteron_proton_mass_ratio = UnitConstant(
     'deuteron_proton_mass_ratio',
     _cd('deuteron-proton mass ratio'),
-    symbol='(m_d/m_n)'
+    symbol='(m_d/m_p)'
 )
 deuteron_electron_magnetic_moment_ratio = UnitConstant(
     'deuteron_electron_magnetic_moment_ratio',
diff --git a/quantities/constants/muon.py b/quantities/constants/muon.py
index cf81fae..eecc463 100644
--- a/quantities/constants/muon.py
+++ b/quantities/constants/muon.py
@@ -14,13 +14,13 @@ m_mu = muon_mass = UnitConstant(
 lambda_C_mu = muon_Compton_wavelength = UnitConstant(
     'muon_Compton_wavelength',
     _cd('muon Compton wavelength'),
-    symbol='lambdabar_C_mu',
+    symbol='lambda_C_mu',
     u_symbol='λ_C_μ'
 )
 muon_Compton_wavelength_over_2_pi = UnitConstant(
     'muon_Compton_wavelength_over_2_pi',
     _cd('muon Compton wavelength over 2 pi'),
-    symbol='lambdabar_Cmu',
+    symbol='lambdabar_C_mu',
     u_symbol='ƛ_C_μ'
 )
 g_mu = muon_g_factor = UnitConstant(
diff --git a/quantities/constants/tau.py b/quantities/constants/tau.py
index fdbe59a..281d22b 100644
--- a/quantities/constants/tau.py
+++ b/quantities/constants/tau.py
@@ -20,7 +20,7 @@ lambda_C_tau = tau_Compton_wavelength = UnitConstant(
 tau_Compton_wavelength_over_2_pi = UnitConstant(
     'tau_Compton_wavelength_over_2_pi',
     _cd('tau Compton wavelength over 2 pi'),
-    symbol='lambda_C_tau',
+    symbol='lambdabar_C_tau',
     u_symbol='ƛ_C_τ'
 )
 tau_mass_energy_equivalent = UnitConstant(
-- 
2.43.0


From 9f07bb599c877f8d74072fab881683ba5967f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 46/71] fix: cross of a quantity and a plain array lost the
 units

---
 quantities/umath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index d093e51..284a3a6 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -105,7 +105,7 @@ def gradient(f, *varargs):
 
 @with_doc(np.cross)
 def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
-    if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
+    if not (isinstance(a, Quantity) or isinstance(b, Quantity)):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
@@ -114,7 +114,7 @@ def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
         b = Quantity(b, dimensionless, copy=False)
 
     return Quantity(
-        np.cross(a, b, axisa, axisb, axisc, axis),
+        np.cross(a.magnitude, b.magnitude, axisa, axisb, axisc, axis),
         a._dimensionality*b._dimensionality,
         copy=False
     )
-- 
2.43.0


From 5a4b3d1587a4607a56fb487e9701543f98ea9caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 47/71] fix: unwrap used a period of 2*pi whatever the units of
 the phase, and lost its units

---
 quantities/umath.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 284a3a6..6605d83 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -381,20 +381,20 @@ def hypot(x1, x2, out = None):
 
 @with_doc(np.unwrap)
 def unwrap(p, discont=np.pi, axis=-1):
-    if not (isinstance(p, Quantity) and isinstance(discont, Quantity)):
-        return np.unwrap(p, discont, axis)
+    """
+    Raises a ValueError if input cannot be rescaled to radians. A plain
+    `discont` is taken in radians.
+    """
+    if isinstance(discont, Quantity):
+        discont = discont.rescale(radian).magnitude
 
     if not isinstance(p, Quantity):
-        p = Quantity(p, copy=False)
-    if not isinstance(discont, Quantity):
-        discont = Quantity(discont, copy=False)
-
-    discont = discont.rescale(p.units)
+        return np.unwrap(p, discont, axis)
 
     return Quantity(
-        np.unwrap(p.magnitude, discont.magnitude, axis),
-        p.units
-    )
+        np.unwrap(p.rescale(radian).magnitude, discont, axis),
+        radian
+    ).rescale(p.units)
 
 @with_doc(np.sinh)
 def sinh(x, out=None):
-- 
2.43.0


From 91bf91d976120dbbbe7efe3157e13249bedbe207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 48/71] fix: ediff1d ignored the units of to_end and to_begin

---
 quantities/umath.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/umath.py b/quantities/umath.py
index 6605d83..408d5dc 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -73,6 +73,11 @@ def ediff1d(ary, to_end=None, to_begin=None):
     if not isinstance(ary, Quantity):
         return np.ediff1d(ary, to_end, to_begin)
 
+    if isinstance(to_end, Quantity):
+        to_end = to_end.rescale(ary.units).magnitude
+    if isinstance(to_begin, Quantity):
+        to_begin = to_begin.rescale(ary.units).magnitude
+
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
         ary.dimensionality,
-- 
2.43.0


From 21b62f0772abf51d951eabf06c797bd58b2f052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:15 +0000
Subject: [PATCH 49/71] fix: cos and tan ignored their out argument

---
 quantities/umath.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 408d5dc..207644a 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -284,7 +284,8 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -313,7 +314,8 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude), copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out),
+                    copy=False)
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
-- 
2.43.0


From 91a6238506cb0e4cd1acfe21ffba52bcdfb0e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 50/71] fix: gradient of one dimensional and plain input, plain
 and missing spacing

---
 quantities/umath.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 207644a..c4546a5 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -86,22 +86,27 @@ def ediff1d(ary, to_end=None, to_begin=None):
 
 @with_doc(np.gradient)
 def gradient(f, *varargs):
+    if not any(isinstance(i, Quantity) for i in (f,) + varargs):
+        return np.gradient(f, *varargs)
+
     # if no sample distances are specified, use dimensionless 1
-    # this mimics the behavior of np.gradient, but perhaps we should
-    # remove this default behavior
-    # removed for now::
-    #
-    #   if len(varargs) == 0:
-    #       varargs = (Quantity(1),)
+    # this mimics the behavior of np.gradient
+    if len(varargs) == 0:
+        varargs = (Quantity(1),)
 
+    f = Quantity(f, copy=False)
     varargsQuantities = [Quantity(i, copy=False) for i in varargs]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
-    if len(varargs) == 1:
+    if isinstance(ret, np.ndarray):
+        # np.gradient returns a single array for one dimensional input
+        return Quantity(ret, f.units/varargsQuantities[0].units)
+    elif len(varargs) == 1:
         # if there was only one sample distance provided,
         # apply the units in all directions
-        return tuple( Quantity(i, f.units/varargs[0].units)  for i  in ret)
+        return tuple( Quantity(i, f.units/varargsQuantities[0].units)
+                      for i  in ret)
     else:
         #give each output array the units of the input array
         #divided by the units of the spacing quantity given
-- 
2.43.0


From 0fbaec56c41fa1b90e4abb354efc0081cd894223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:19 +0000
Subject: [PATCH 51/71] fix: a refused unit definition left some of its labels
 in the registry

---
 quantities/registry.py     | 27 +++++++++++++++++----------
 quantities/unitquantity.py |  9 +++++----
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index fefe7da..0e9bf63 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -47,17 +47,24 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
+            self.__check(string, val)
+            self.__context.setdefault(string, val)
+
+        def register(self, labels, val):
+            """Bind every label to val, or none of them if one is refused"""
+            for label in labels:
+                self.__check(label, val)
+            for label in labels:
+                self[label] = val
+
+        def __check(self, string, val):
             if not isinstance(string, str): raise AssertionError
-            try:
-                if string in self.__context: raise AssertionError
-            except AssertionError:
-                if self.__same(val, self.__context[string]):
-                    return
-                raise KeyError(
-                    '%s has already been registered for %s'
-                    % (string, self.__context[string])
-                )
-            self.__context[string] = val
+            if string in self.__context:
+                if not self.__same(val, self.__context[string]):
+                    raise KeyError(
+                        '%s has already been registered for %s'
+                        % (string, self.__context[string])
+                    )
 
         @staticmethod
         def __same(new, old):
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 09d8815..238fdce 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -77,11 +77,12 @@ class UnitQuantity(Quantity):
         self, name, definition=None, symbol=None, u_symbol=None,
         aliases=[], doc=None
     ):
-        unit_registry[name] = self
+        labels = [name]
         if symbol:
-            unit_registry[symbol] = self
-        for alias in aliases:
-            unit_registry[alias] = self
+            labels.append(symbol)
+        labels.extend(aliases)
+        # a refused definition must not leave some of its labels behind
+        unit_registry.register(labels, self)
 
     def __array_finalize__(self, obj):
         pass
-- 
2.43.0


From a633a409734188dc0a914f911ed64ffe77e7ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 52/71] fix: endless recursion simplifying a unit without
 definition

---
 quantities/unitquantity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 238fdce..00d6e47 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -118,7 +118,11 @@ class UnitQuantity(Quantity):
 
     @property
     def simplified(self):
-        return self._reference.simplified
+        ref = self._reference
+        if ref is self:
+            # there is nothing to reduce it to
+            return Quantity(1.0, self.dimensionality)
+        return ref.simplified
 
     @property
     def symbol(self):
-- 
2.43.0


From 5f4df605354f50699ff97f2eeda5e94c7a2c8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 53/71] fix: threads defining the same label at once both
 succeeded

---
 quantities/registry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quantities/registry.py b/quantities/registry.py
index 0e9bf63..662670c 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -3,6 +3,7 @@
 
 import ast
 import re
+import threading
 
 
 class UnitRegistry:
@@ -11,6 +12,7 @@ class UnitRegistry:
     class __Registry:
 
         __shared_state = {}
+        __lock = threading.RLock()
         whitelist = (
             ast.Expression,
             ast.Constant,
@@ -47,15 +49,15 @@ class UnitRegistry:
                 raise LookupError('Unable to parse units: "%s"' % string)
 
         def __setitem__(self, string, val):
-            self.__check(string, val)
-            self.__context.setdefault(string, val)
+            self.register([string], val)
 
         def register(self, labels, val):
             """Bind every label to val, or none of them if one is refused"""
-            for label in labels:
-                self.__check(label, val)
-            for label in labels:
-                self[label] = val
+            with self.__lock:
+                for label in labels:
+                    self.__check(label, val)
+                for label in labels:
+                    self.__context.setdefault(label, val)
 
         def __check(self, string, val):
             if not isinstance(string, str): raise AssertionError
-- 
2.43.0


From 2c3304d558566a43315604bf6a51fd14c51d9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 54/71] fix: units defined in different threads got the same
 rendering order

---
 quantities/unitquantity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 00d6e47..050c299 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -1,6 +1,7 @@
 """
 """
 
+import threading
 import weakref
 
 import numpy
@@ -20,6 +21,9 @@ __all__ = [
 ]
 
 
+_order_lock = threading.Lock()
+
+
 class UnitQuantity(Quantity):
 
     _primary_order = 90
@@ -68,8 +72,10 @@ class UnitQuantity(Quantity):
 
         ret._aliases = aliases
 
-        ret._format_order = (ret._primary_order, ret._secondary_order)
-        ret.__class__._secondary_order += 1
+        with _order_lock:
+            # units of the same order would be rendered in any order
+            ret._format_order = (ret._primary_order, ret._secondary_order)
+            ret.__class__._secondary_order += 1
 
         return ret
 
-- 
2.43.0


From 9e40246d67f00e3dd0ea7aaa8f88490a3ea958a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:21 +0000
Subject: [PATCH 55/71] fix: invalid false units of a constructor were ignored
 for quantities

---
 quantities/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 1f7107a..a3b0c22 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -123,7 +123,7 @@ class Quantity(np.ndarray):
                            "The argument has no effect since quantities-0.16.0 (to aid numpy-2.0 support)."),
                            QuantitiesDeprecationWarning, stacklevel=2)
         if isinstance(data, Quantity):
-            if units or isinstance(units, Dimensionality):
+            if units is not None and not (isinstance(units, str) and not units):
                 data = data.rescale(units)
             if isinstance(data, unit_registry['UnitQuantity']):
                 data = 1*data
-- 
2.43.0


From 7c0271cbe65751de3229a182158f9a065c6ba039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 56/71] fix: numpy's functions accept zero on the left of an
 uncertain quantity again

---
 quantities/uncertainquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 1c01bf3..fbe8c7c 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -106,6 +106,9 @@ class UncertainQuantity(Quantity):
             op = self._reflected.get(context[0])
             if op and not isinstance(context[1][0], Quantity):
                 left, right = context[1][:2]
+                if context[0] in (np.add, np.subtract):
+                    # zero is accepted whatever the units are
+                    left = Quantity(left, right._dimensionality)
                 ret._uncertainty = getattr(right, op)(left)._uncertainty
         return ret
 
-- 
2.43.0


From 02dc2b79aacc67c65c65df3a440aded18ce68bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 57/71] fix: LaTeX fractions were split inside compound units
 and constants

---
 quantities/markup.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 6a65312..1859f7b 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -90,6 +90,20 @@ def format_units_unicode(udict):
     return res
 
 
+def find_division(val):
+    '''
+    position of the last division which is not part of a symbol in parentheses
+    '''
+    depth, pos = 0, -1
+    for i, char in enumerate(val):
+        if char == '(':
+            depth += 1
+        elif char == ')':
+            depth -= 1
+        elif char == '/' and depth == 0:
+            pos = i
+    return pos
+
 def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     '''
     Replace the units string provided with an equivalent latex string.
@@ -123,7 +137,9 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
         # Not a compound unit
         compound = False
         # Replace division (num/den) with \frac{num}{den}
-        res = re.sub(r'(?P<num>.+)/(?P<den>.+)',r'\\frac{\g<num>}{\g<den>}',res)
+        slash = find_division(res)
+        if slash >= 0:
+            res = r'\frac{%s}{%s}' % (res[:slash], res[slash+1:])
     # Replace exponentiation (**exp) with ^{exp}
     res = re.sub(r'\*{2,2}(?P<exp>\d+(\.\d+)?(e[-+]?\d+)?)',r'^{\g<exp>}',res)
     # Remove multiplication signs
-- 
2.43.0


From 7007e0d5b8b6b191dbe3551c9be3ef908de5c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 58/71] fix: refuse __builtins__ as a name of a unit

---
 quantities/registry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantities/registry.py b/quantities/registry.py
index 662670c..7c9d041 100644
--- a/quantities/registry.py
+++ b/quantities/registry.py
@@ -33,6 +33,11 @@ class UnitRegistry:
             # by https://stackoverflow.com/users/567292/ecatmur
             tree = ast.parse(string, mode="eval")
             valid = all(isinstance(node, self.whitelist) for node in ast.walk(tree))
+            # a name stands for a registered unit, not for a global of eval
+            valid = valid and all(
+                node.id in self.__context
+                for node in ast.walk(tree) if isinstance(node, ast.Name)
+            )
             if valid:
                 try:
                     item = eval(
-- 
2.43.0


From 5dac927b85388dc61f20d786ec5958af6e1e931e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:29 +0000
Subject: [PATCH 59/71] fix: a result stored in a view does not change the
 units of the view

---
 quantities/quantity.py | 51 ++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index a3b0c22..2e5ef15 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -77,6 +77,17 @@ def protected_multiplication(f):
         return f(self, other, *args)
     return g
 
+def output_array(out, dim):
+    """
+    The array which receives a result in units of dim. A view can not change
+    its units, they are those of the array it belongs to.
+    """
+    if out is None:
+        return None
+    if isinstance(out.base, Quantity) and out._dimensionality != dim:
+        raise ValueError('can not modify units of a view of a Quantity')
+    return out.magnitude
+
 def check_uniform(f):
     @wraps(f)
     def g(self, other, *args):
@@ -526,8 +537,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.sum(axis, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.sum(axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -538,8 +549,8 @@ class Quantity(np.ndarray):
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         import numpy as np
-        ret = np.nansum(self.magnitude, axis, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = np.nansum(self.magnitude, axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -592,8 +603,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        ret = self.magnitude.max(axis, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.max(axis, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -607,8 +618,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        ret = np.nanmax(self.magnitude, axis, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = np.nanmax(self.magnitude, axis, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -618,8 +629,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        ret = self.magnitude.min(axis, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.min(axis, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -629,8 +640,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        ret = np.nanmin(self.magnitude, axis, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = np.nanmin(self.magnitude, axis, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -652,8 +663,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.ptp)
     def ptp(self, axis=None, out=None):
-        ret = np.ptp(self.magnitude, axis, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = np.ptp(self.magnitude, axis, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -677,12 +688,12 @@ class Quantity(np.ndarray):
         if not isinstance(min, Quantity): min = Quantity(min)
         if not isinstance(max, Quantity): max = Quantity(max)
 
+        dim = self.dimensionality
         clipped = self.magnitude.clip(
             min.rescale(self._dimensionality).magnitude,
             max.rescale(self._dimensionality).magnitude,
-            None if out is None else out.magnitude
+            output_array(out, dim)
         )
-        dim = self.dimensionality
         if out is None:
             return Quantity(clipped, dim)
         if not isinstance(out, Quantity):
@@ -692,8 +703,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.round)
     def round(self, decimals=0, out=None):
-        ret = self.magnitude.round(decimals, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.round(decimals, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -703,8 +714,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.trace)
     def trace(self, offset=0, axis1=0, axis2=1, dtype=None, out=None):
-        ret = self.magnitude.trace(offset, axis1, axis2, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.trace(offset, axis1, axis2, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -719,8 +730,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.mean(axis, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.mean(axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -731,8 +742,8 @@ class Quantity(np.ndarray):
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         import numpy as np
-        ret = np.nanmean(self.magnitude, axis, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = np.nanmean(self.magnitude, axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -742,8 +753,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.var)
     def var(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.var(axis, dtype, out, ddof)
         dim = self._dimensionality**2
+        ret = self.magnitude.var(axis, dtype, output_array(out, dim), ddof)
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -753,8 +764,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.std)
     def std(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = self.magnitude.std(axis, dtype, out, ddof)
         dim = self.dimensionality
+        ret = self.magnitude.std(axis, dtype, output_array(out, dim), ddof)
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -764,8 +775,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.nanstd)
     def nanstd(self, axis=None, dtype=None, out=None, ddof=0):
-        ret = np.nanstd(self.magnitude, axis, dtype, None if out is None else out.magnitude, ddof)
         dim = self.dimensionality
+        ret = np.nanstd(self.magnitude, axis, dtype, output_array(out, dim), ddof)
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -782,8 +793,8 @@ class Quantity(np.ndarray):
             for i in axis if isinstance(axis, tuple) else (axis, ):
                 power *= self.shape[i]
 
-        ret = self.magnitude.prod(axis, dtype, None if out is None else out.magnitude)
         dim = self._dimensionality**power
+        ret = self.magnitude.prod(axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -793,8 +804,8 @@ class Quantity(np.ndarray):
 
     @with_doc(np.ndarray.cumsum)
     def cumsum(self, axis=None, dtype=None, out=None):
-        ret = self.magnitude.cumsum(axis, dtype, None if out is None else out.magnitude)
         dim = self.dimensionality
+        ret = self.magnitude.cumsum(axis, dtype, output_array(out, dim))
         if out is None:
             return Quantity(ret, dim)
         if not isinstance(out, Quantity):
@@ -810,8 +821,10 @@ class Quantity(np.ndarray):
                 "Quantity must be dimensionless, try using simplified"
             )
 
-        ret = self.magnitude.cumprod(axis, dtype, out)
         dim = self.dimensionality
+        if isinstance(out, Quantity):
+            output_array(out, dim)
+        ret = self.magnitude.cumprod(axis, dtype, out)
         if out is None:
             return Quantity(ret, dim)
         if isinstance(out, Quantity):
-- 
2.43.0


From e9ffb73e358d1905a2b115bd1b0201d6846ab1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:55 +0000
Subject: [PATCH 60/71] fix: ufuncs do not change the units of a view given as
 output

---
 quantities/quantity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 2e5ef15..2f4a129 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -321,13 +321,16 @@ class Quantity(np.ndarray):
             return obj
 
         try:
-            res._dimensionality = p_dict[uf](*objs)
+            dim = p_dict[uf](*objs)
         except KeyError:
             raise ValueError(
                 """ufunc %r not supported by quantities
                 please file a bug report at https://github.com/python-quantities
                 """ % uf
                 )
+        if res is obj:
+            output_array(obj, dim)
+        res._dimensionality = dim
         return res
 
     def __array_wrap__(self, obj, context=None, return_scalar=False):
-- 
2.43.0


From 893f300e1bbdb042c075031c8df9b6d994f319ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:14 +0000
Subject: [PATCH 61/71] fix: reductions of uncertain quantities honour the
 output quantity

---
 quantities/uncertainquantity.py | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index fbe8c7c..6dda4c6 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -5,7 +5,7 @@ import numpy as np
 import warnings
 
 from . import markup, QuantitiesDeprecationWarning
-from .quantity import Quantity, scale_other_units
+from .quantity import Quantity, output_array, scale_other_units
 from .registry import unit_registry
 from .decorators import with_doc
 
@@ -265,38 +265,55 @@ class UncertainQuantity(Quantity):
             return s.replace('+/-', '±').replace(' sigma', 'σ')
         return s
 
+    def _give(self, out):
+        """self, stored in out if there is one"""
+        if out is None:
+            return self
+        if not isinstance(out, Quantity):
+            raise TypeError("out parameter must be a Quantity")
+        if out.shape != self.shape:
+            raise ValueError(
+                "output array has the shape %s instead of %s"
+                % (out.shape, self.shape)
+            )
+        np.copyto(output_array(out, self._dimensionality), self.magnitude)
+        out._dimensionality = self.dimensionality
+        if isinstance(out, UncertainQuantity):
+            out._uncertainty = self._uncertainty
+        return out
+
     @with_doc(np.ndarray.sum)
     def sum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
-            self.magnitude.sum(axis, dtype, out),
+            self.magnitude.sum(axis, dtype),
             self.dimensionality,
             (np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        )._give(out)
 
     @with_doc(np.nansum)
     def nansum(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
-            np.nansum(self.magnitude, axis, dtype, out),
+            np.nansum(self.magnitude, axis, dtype),
             self.dimensionality,
             (np.nansum(np.where(np.isnan(self.magnitude), 0, self.uncertainty.magnitude)**2, axis))**0.5
-        )
+        )._give(out)
 
     @with_doc(np.ndarray.mean)
     def mean(self, axis=None, dtype=None, out=None):
         return UncertainQuantity(
-            self.magnitude.mean(axis, dtype, out),
+            self.magnitude.mean(axis, dtype),
             self.dimensionality,
             ((1.0/np.size(self,axis))**2 * np.sum(self.uncertainty.magnitude**2, axis))**0.5
-        )
+        )._give(out)
 
     @with_doc(np.nanmean)
     def nanmean(self, axis=None, dtype=None, out=None):
         size = np.sum(~np.isnan(self),axis)
         return UncertainQuantity(
-            np.nanmean(self.magnitude, axis, dtype, out),
+            np.nanmean(self.magnitude, axis, dtype),
             self.dimensionality,
             ((1.0/size)**2 * np.nansum(np.where(np.isnan(self.magnitude), 0, np.nan_to_num(self.uncertainty.magnitude))**2, axis))**0.5
-        )
+        )._give(out)
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
@@ -314,19 +331,19 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.ndarray.max)
     def max(self, axis=None, out=None):
-        return self._select(np.argmax, axis)
+        return self._select(np.argmax, axis)._give(out)
 
     @with_doc(np.nanmax)
     def nanmax(self, axis=None, out=None):
-        return self._select(np.nanargmax, axis)
+        return self._select(np.nanargmax, axis)._give(out)
 
     @with_doc(np.ndarray.min)
     def min(self, axis=None, out=None):
-        return self._select(np.argmin, axis)
+        return self._select(np.argmin, axis)._give(out)
 
     @with_doc(np.nanmin)
     def nanmin(self, axis=None, out=None):
-        return self._select(np.nanargmin, axis)
+        return self._select(np.nanargmin, axis)._give(out)
 
     @with_doc(np.ndarray.argmin)
     def argmin(self,axis=None, out=None):
-- 
2.43.0


From b03711c9a92c91f06b39d20e82dcbb24df896278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 62/71] fix: parentheses around LaTeX and HTML units that begin
 with a compound unit

---
 quantities/markup.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/quantities/markup.py b/quantities/markup.py
index 1859f7b..85df4b8 100644
--- a/quantities/markup.py
+++ b/quantities/markup.py
@@ -104,6 +104,20 @@ def find_division(val):
             pos = i
     return pos
 
+def in_parentheses(val):
+    '''
+    whether one pair of parentheses encloses all of val
+    '''
+    depth = 0
+    for i, char in enumerate(val):
+        if char == '(':
+            depth += 1
+        elif char == ')':
+            depth -= 1
+        if depth == 0:
+            return char == ')' and i == len(val) - 1
+    return False
+
 def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     '''
     Replace the units string provided with an equivalent latex string.
@@ -130,7 +144,7 @@ def format_units_latex(udict,font='mathrm',mult=r'\\cdot',paren=False):
     This routine will not put CompoundUnits into a fractional form.
     '''
     res = format_units(udict)
-    if res.startswith('(') and res.endswith(')'):
+    if in_parentheses(res):
         # Compound Unit
         compound = True
     else:
@@ -167,7 +181,7 @@ def format_units_html(udict,font='%s',mult=r'&sdot;',paren=False):
 
     '''
     res = format_units(udict)
-    if res.startswith('(') and res.endswith(')'):
+    if in_parentheses(res):
         # Compound Unit
         compound = True
     else:
-- 
2.43.0


From 743898a0e068d4ede51389184ef5d41738b12ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:50 +0000
Subject: [PATCH 63/71] fix: exponents with units were accepted when an array
 is raised to them

---
 quantities/quantity.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 2f4a129..8c23338 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -423,6 +423,13 @@ class Quantity(np.ndarray):
     def __pow__(self, other):
         return np.power(self, other)
 
+    @with_doc(np.ndarray.__rpow__)
+    def __rpow__(self, other):
+        # arrays take shortcuts for some exponents which ignore their units
+        if isinstance(other, Quantity):
+            return other.__pow__(self)
+        return np.power(other, self)
+
     @with_doc(np.ndarray.__ipow__)
     @check_uniform
     @protected_power
-- 
2.43.0


From 87e0663cc3bd5a13c95e41114674639edd6f8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:20 +0000
Subject: [PATCH 64/71] fix: the uncertainty of an exponent was ignored

---
 quantities/uncertainquantity.py | 20 +++++++++++++++++---
 quantities/unitquantity.py      |  2 +-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 6dda4c6..70e86d3 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -114,7 +114,8 @@ class UncertainQuantity(Quantity):
 
     _reflected = {
         np.add: '__radd__', np.subtract: '__rsub__',
-        np.multiply: '__rmul__', np.true_divide: '__rtruediv__'
+        np.multiply: '__rmul__', np.true_divide: '__rtruediv__',
+        np.power: '__rpow__'
     }
 
     @with_doc(Quantity.__add__, use_header=False)
@@ -191,11 +192,24 @@ class UncertainQuantity(Quantity):
     def __pow__(self, other):
         res = super().__pow__(other)
         # on magnitudes, because other-1+1 is not always other
-        other = np.asarray(other)
-        u = abs(other * self.magnitude**(other-1.0)) * self.uncertainty.magnitude
+        exponent = np.asarray(other)
+        u = abs(exponent * self.magnitude**(exponent-1.0)) * self.uncertainty.magnitude
+        if isinstance(other, UncertainQuantity) and other.uncertainty.any():
+            base = self.view(Quantity).simplified
+            if base._dimensionality:
+                raise ValueError('the exponent of a unit must be exact')
+            u_exponent = other.uncertainty.magnitude
+            # nothing is added by these, whatever their logarithm is
+            exact = (res.magnitude == 0) | (u_exponent == 0)
+            log = np.log(np.where(exact, 1, base.magnitude))
+            u = np.hypot(u, res.magnitude * log * u_exponent)
         res.uncertainty = Quantity(u, res._dimensionality)
         return res
 
+    @with_doc(Quantity.__rpow__, use_header=False)
+    def __rpow__(self, other):
+        return UncertainQuantity(other).__pow__(self)
+
     @with_doc(Quantity.__iadd__, use_header=False)
     def __iadd__(self, other):
         uncertainty = (self + other).uncertainty
diff --git a/quantities/unitquantity.py b/quantities/unitquantity.py
index 050c299..8a5f95e 100644
--- a/quantities/unitquantity.py
+++ b/quantities/unitquantity.py
@@ -231,7 +231,7 @@ class UnitQuantity(Quantity):
 
     @with_doc(Quantity.__pow__, use_header=False)
     def __pow__(self, other):
-        return self.view(Quantity).__pow__(other)
+        return self.view(Quantity) ** other
 
     @with_doc(Quantity.__rpow__, use_header=False)
     def __rpow__(self, other):
-- 
2.43.0


From fccf529cefb80f93eab3af4f4106e779a0ed086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:13 +0000
Subject: [PATCH 65/71] fix: abs and functions equal to a power lost the
 uncertainty

---
 quantities/uncertainquantity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 70e86d3..28a8436 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -102,6 +102,9 @@ class UncertainQuantity(Quantity):
     def __array_wrap__(self, obj, context=None, return_scalar=False):
         ret = super().__array_wrap__(obj, context, return_scalar)
         if context is not None and isinstance(ret, UncertainQuantity):
+            power = self._powers.get(context[0])
+            if power and ret is not context[1][0]:
+                ret._uncertainty = (context[1][0]**power)._uncertainty
             # numpy's scalars do not leave the operation to the operators below
             op = self._reflected.get(context[0])
             if op and not isinstance(context[1][0], Quantity):
@@ -118,6 +121,12 @@ class UncertainQuantity(Quantity):
         np.power: '__rpow__'
     }
 
+    # functions with the uncertainty of a power
+    _powers = {
+        np.absolute: 1, np.fabs: 1, np.negative: 1, np.conjugate: 1,
+        np.square: 2, np.sqrt: 0.5, np.reciprocal: -1.0
+    }
+
     @with_doc(Quantity.__add__, use_header=False)
     @scale_other_units
     def __add__(self, other):
-- 
2.43.0


From b3de667537fbc78360db69d079bc9c213ebf4231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:23 +0000
Subject: [PATCH 66/71] fix: the mathematical functions do not pass the
 deprecated copy argument

---
 quantities/umath.py | 78 +++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index c4546a5..570a796 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -50,8 +50,7 @@ def nansum(a, axis=None):
 
     return Quantity(
         np.nansum(a.magnitude, axis),
-        a.dimensionality,
-        copy=False
+        a.dimensionality
     )
 
 @with_doc(np.cumprod)
@@ -80,8 +79,7 @@ def ediff1d(ary, to_end=None, to_begin=None):
 
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
-        ary.dimensionality,
-        copy=False
+        ary.dimensionality
     )
 
 @with_doc(np.gradient)
@@ -94,8 +92,8 @@ def gradient(f, *varargs):
     if len(varargs) == 0:
         varargs = (Quantity(1),)
 
-    f = Quantity(f, copy=False)
-    varargsQuantities = [Quantity(i, copy=False) for i in varargs]
+    f = Quantity(f)
+    varargsQuantities = [Quantity(i) for i in varargs]
     varargsMag = tuple(i.magnitude for i in varargsQuantities)
     ret = np.gradient(f.magnitude, *varargsMag)
 
@@ -119,14 +117,13 @@ def cross (a, b , axisa=-1, axisb=-1, axisc=-1, axis=None):
         return np.cross(a, b, axisa, axisb, axisc, axis)
 
     if not isinstance(a, Quantity):
-        a = Quantity(a, dimensionless, copy=False)
+        a = Quantity(a, dimensionless)
     if not isinstance(b, Quantity):
-        b = Quantity(b, dimensionless, copy=False)
+        b = Quantity(b, dimensionless)
 
     return Quantity(
         np.cross(a.magnitude, b.magnitude, axisa, axisb, axisc, axis),
-        a._dimensionality*b._dimensionality,
-        copy=False
+        a._dimensionality*b._dimensionality
     )
 
 
@@ -198,11 +195,11 @@ def trapz(y, x=None, dx=1.0, axis=-1):
         return _trapz(y, x, dx, axis)
 
     if not isinstance(y, Quantity):
-        y = Quantity(y, copy = False)
+        y = Quantity(y)
     if not isinstance(x, Quantity) and not x is None:
-        x = Quantity(x, copy = False)
+        x = Quantity(x)
     if not isinstance(dx, Quantity):
-        dx = Quantity(dx, copy = False)
+        dx = Quantity(dx)
 
     if x is None:
         ret = _trapz(y.magnitude , x, dx.magnitude, axis)
@@ -218,13 +215,11 @@ def _trapz(y, x, dx, axis):
         from scipy.integrate import trapezoid  # type: ignore
     except ImportError:
         # otherwise we use the implementation ported from numpy 1.26
-        from numpy.core.numeric import asanyarray
-        from numpy.core.umath import add
-        y = asanyarray(y)
+        y = np.asanyarray(y)
         if x is None:
             d = dx
         else:
-            x = asanyarray(x)
+            x = np.asanyarray(x)
             if x.ndim == 1:
                 d = diff(x)
                 # reshape to correct shape
@@ -244,7 +239,7 @@ def _trapz(y, x, dx, axis):
             # Operations didn't work, cast to ndarray
             d = np.asarray(d)
             y = np.asarray(y)
-            ret = add.reduce(d * (y[tuple(slice1)]+y[tuple(slice2)])/2.0, axis)
+            ret = np.add.reduce(d * (y[tuple(slice1)]+y[tuple(slice2)])/2.0, axis)
         return ret
     else:
         return trapezoid(y, x=x, dx=dx, axis=axis)
@@ -259,8 +254,7 @@ def sin(x, out=None):
     if not isinstance(x, Quantity):
         return np.sin(x, out)
 
-    return Quantity(np.sin(x.rescale(radian).magnitude, out),
-                    copy=False)
+    return Quantity(np.sin(x.rescale(radian).magnitude, out))
 
 @with_doc(np.arcsin)
 def arcsin(x, out=None):
@@ -275,8 +269,7 @@ def arcsin(x, out=None):
 
     return Quantity(
         np.arcsin(x.rescale(dimensionless).magnitude, out),
-        radian,
-        copy=False
+        radian
     )
 
 @with_doc(np.cos)
@@ -289,8 +282,7 @@ def cos(x, out=None):
     if not isinstance(x, Quantity):
         return np.cos(x, out)
 
-    return Quantity(np.cos(x.rescale(radian).magnitude, out),
-                    copy=False)
+    return Quantity(np.cos(x.rescale(radian).magnitude, out))
 
 @with_doc(np.arccos)
 def arccos(x, out=None):
@@ -305,8 +297,7 @@ def arccos(x, out=None):
 
     return Quantity(
         np.arccos(x.rescale(dimensionless).magnitude, out),
-        radian,
-        copy=False
+        radian
     )
 
 @with_doc(np.tan)
@@ -319,8 +310,7 @@ def tan(x, out=None):
     if not isinstance(x, Quantity):
         return np.tan(x, out)
 
-    return Quantity(np.tan(x.rescale(radian).magnitude, out),
-                    copy=False)
+    return Quantity(np.tan(x.rescale(radian).magnitude, out))
 
 @with_doc(np.arctan)
 def arctan(x, out=None):
@@ -335,8 +325,7 @@ def arctan(x, out=None):
 
     return Quantity(
         np.arctan(x.rescale(dimensionless).magnitude, out),
-        radian,
-        copy=False
+        radian
     )
 
 @with_doc(np.arctan2)
@@ -350,9 +339,9 @@ def arctan2(x1, x2, out=None):
         return np.arctan2(x1, x2, out)
 
     if not isinstance(x1, Quantity):
-        x1 = Quantity(x1, dimensionless, copy=False)
+        x1 = Quantity(x1, dimensionless)
     if not isinstance(x2, Quantity):
-        x2 = Quantity(x2, dimensionless, copy=False)
+        x2 = Quantity(x2, dimensionless)
 
     if x1._dimensionality.simplified != x2._dimensionality.simplified:
         raise ValueError(
@@ -362,8 +351,7 @@ def arctan2(x1, x2, out=None):
 
     return Quantity(
         np.arctan2(x1.magnitude, x2.rescale(x1.units).magnitude, out),
-        radian,
-        copy=False
+        radian
     )
 
 @with_doc(np.hypot)
@@ -375,9 +363,9 @@ def hypot(x1, x2, out = None):
         return np.hypot(x1, x2, out)
 
     if not isinstance(x1, Quantity):
-        x1 = Quantity(x1, dimensionless, copy=False)
+        x1 = Quantity(x1, dimensionless)
     if not isinstance(x2, Quantity):
-        x2 = Quantity(x2, dimensionless, copy=False)
+        x2 = Quantity(x2, dimensionless)
 
     if x1._dimensionality != x2._dimensionality:
         raise ValueError(
@@ -419,8 +407,7 @@ def sinh(x, out=None):
 
     return Quantity(
         np.sinh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
 
 @with_doc(np.cosh)
@@ -434,8 +421,7 @@ def cosh(x, out=None):
 
     return Quantity(
         np.cosh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
 
 @with_doc(np.tanh)
@@ -449,8 +435,7 @@ def tanh(x, out=None):
 
     return Quantity(
         np.tanh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
 
 @with_doc(np.arcsinh)
@@ -464,8 +449,7 @@ def arcsinh(x, out=None):
 
     return Quantity(
         np.arcsinh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
 
 @with_doc(np.arccosh)
@@ -479,8 +463,7 @@ def arccosh(x, out=None):
 
     return Quantity(
         np.arccosh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
 
 @with_doc(np.arctanh)
@@ -494,6 +477,5 @@ def arctanh(x, out=None):
 
     return Quantity(
         np.arctanh(x.rescale(dimensionless).magnitude, out),
-        dimensionless,
-        copy=False
+        dimensionless
     )
-- 
2.43.0


From b77ea86f5812c6ef52bd35597f060985f56d716d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:38 +0000
Subject: [PATCH 67/71] fix: hypot does not pass the deprecated copy argument

---
 quantities/umath.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index 570a796..d2a0401 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -375,8 +375,7 @@ def hypot(x1, x2, out = None):
 
     return Quantity(
         np.hypot(x1.magnitude, x2.magnitude, out),
-        x1.dimensionality,
-        copy = False
+        x1.dimensionality
     )
 
 @with_doc(np.unwrap)
-- 
2.43.0


From 75ccd66142ab3785fabf3752eb2632cd7a912018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:55 +0000
Subject: [PATCH 68/71] fix: ediff1d does not mix plain numbers with
 dimensional ends

---
 quantities/umath.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quantities/umath.py b/quantities/umath.py
index d2a0401..b0572a7 100644
--- a/quantities/umath.py
+++ b/quantities/umath.py
@@ -69,13 +69,17 @@ diff = np.diff
 
 @with_doc(np.ediff1d)
 def ediff1d(ary, to_end=None, to_begin=None):
-    if not isinstance(ary, Quantity):
+    if not any(isinstance(i, Quantity) for i in (ary, to_end, to_begin)):
         return np.ediff1d(ary, to_end, to_begin)
 
-    if isinstance(to_end, Quantity):
-        to_end = to_end.rescale(ary.units).magnitude
-    if isinstance(to_begin, Quantity):
-        to_begin = to_begin.rescale(ary.units).magnitude
+    if not isinstance(ary, Quantity):
+        ary = Quantity(ary)
+
+    # zero is accepted whatever the units are
+    if to_end is not None and (isinstance(to_end, Quantity) or np.any(to_end)):
+        to_end = Quantity(to_end).rescale(ary.units).magnitude
+    if to_begin is not None and (isinstance(to_begin, Quantity) or np.any(to_begin)):
+        to_begin = Quantity(to_begin).rescale(ary.units).magnitude
 
     return Quantity(
         np.ediff1d(ary.magnitude, to_end, to_begin),
-- 
2.43.0


From fbb2ba4b8cfea7e8b1a3cface52d98da12ebb842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:41 +0000
Subject: [PATCH 69/71] fix: sqrt of an uncertain quantity stores its result in
 out

---
 quantities/uncertainquantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index 28a8436..e4760c3 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -340,7 +340,7 @@ class UncertainQuantity(Quantity):
 
     @with_doc(np.sqrt)
     def sqrt(self, out=None):
-        return self**0.5
+        return (self**0.5)._give(out)
 
     def _select(self, func, axis):
         if axis is None:
-- 
2.43.0


From eadda6e13394e1b1f6d944e62230a6f4aa1e1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:41 +0000
Subject: [PATCH 70/71] fix: powers have the element type numpy gives

---
 quantities/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantities/quantity.py b/quantities/quantity.py
index 8c23338..3016cbd 100644
--- a/quantities/quantity.py
+++ b/quantities/quantity.py
@@ -93,9 +93,10 @@ def check_uniform(f):
     def g(self, other, *args):
         if getattr(other, 'dimensionality', None):
             raise ValueError("exponent must be dimensionless")
-        other = np.asarray(other)
+        # other itself decides, as a number does not, on the element type
+        exponent = np.asarray(other)
         try:
-            if other.min() != other.max(): raise AssertionError
+            if exponent.min() != exponent.max(): raise AssertionError
         except AssertionError:
             raise ValueError('Quantities must be raised to a uniform power')
         return f(self, other, *args)
-- 
2.43.0


From e7b3da52c4062773c57ec95d396dac427174a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:27 +0000
Subject: [PATCH 71/71] fix: uncertainties which are whole numbers do not wrap
 around

---
 quantities/uncertainquantity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantities/uncertainquantity.py b/quantities/uncertainquantity.py
index e4760c3..7f81504 100644
--- a/quantities/uncertainquantity.py
+++ b/quantities/uncertainquantity.py
@@ -75,6 +75,9 @@ class UncertainQuantity(Quantity):
             raise ValueError('data and uncertainty must have identical shape')
         if uncertainty._dimensionality != self._dimensionality:
             uncertainty = uncertainty.rescale(self._dimensionality)
+        if uncertainty.dtype.kind in 'biu':
+            # squares and products do not fit into narrow data types
+            uncertainty = uncertainty.astype('d')
         self._uncertainty = uncertainty
 
     @property
-- 
2.43.0

