From 034444b9f1fdf53ac709de5a557490c47b8e1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 01/24] fix: a prefix spelled like the unit it scales (mm, dd,
 hh) is no longer taken for the unit

---
 pyudunits2/_unit_system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 59f0a2d..d60e4d5 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -232,15 +232,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_name) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_name) :])
                     if unit:
+                        # The prefix goes in by value: as an identifier it would
+                        # collide with a unit of the same spelling (e.g. "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_name): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_name) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_name),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_name) :]
                                 ),
@@ -256,15 +257,16 @@ class UnitSystem:
                         name_or_symbol[len(prefix_symbol) :]
                     ) or self._unit_by_symbol(name_or_symbol[len(prefix_symbol) :])
                     if unit:
+                        # The prefix goes in by value: as an identifier it would
+                        # collide with a unit of the same spelling (e.g. "mm").
                         refs = {
-                            unit_graph.Identifier(prefix_symbol): prefix,
                             unit_graph.Identifier(
                                 name_or_symbol[len(prefix_symbol) :]
                             ): unit,
                         }
                         result = Unit(
                             definition=unit_graph.Multiply(
-                                unit_graph.Identifier(prefix_symbol),
+                                prefix._expanded_expr(),
                                 unit_graph.Identifier(
                                     name_or_symbol[len(prefix_symbol) :]
                                 ),
-- 
2.43.0


From fa06d817d43538b2032a9471f498b2dd6a0cd275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/24] fix: keep the brackets of a divisor and of a raised
 term when a unit is written out

"m/(s K)" and "m/s K", or "(m s)^2" and "m s^2", had the same text and so compared equal.
---
 pyudunits2/_expr/graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_expr/graph.py b/pyudunits2/_expr/graph.py
index 2b7fa53..fe2a5be 100644
--- a/pyudunits2/_expr/graph.py
+++ b/pyudunits2/_expr/graph.py
@@ -101,6 +101,9 @@ class BinaryOp(Node):
 
 class Raise(BinaryOp):
     def __str__(self):
+        if isinstance(self.lhs, BinaryOp):
+            # Raising binds tighter than any other operator (and can't be chained).
+            return f"({self.lhs})^{self.rhs}"
         return f"{self.lhs}^{self.rhs}"
 
 
@@ -111,8 +114,9 @@ class Multiply(BinaryOp):
 
 class Divide(BinaryOp):
     def __str__(self):
-        # TODO: It may be necessary to put brackets around
-        #  the rhs, depending on context (e.g. if rhs is a multiply)
+        if isinstance(self.rhs, (Multiply, Divide)):
+            # Multiply and divide are evaluated left to right.
+            return f"{self.lhs}/({self.rhs})"
         return f"{self.lhs}/{self.rhs}"
 
 
-- 
2.43.0


From a03f195ec3c4db0cbf94d06fbd4c57c26a8b6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 03/24] =?UTF-8?q?fix:=20unicode=20exponents=20(m=C2=B2)=20?=
 =?UTF-8?q?are=20integers,=20not=20text,=20so=20that=20such=20units=20have?=
 =?UTF-8?q?=20a=20dimensionality?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pyudunits2/_grammar/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 3cf33c2..5799cbb 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -24,7 +24,12 @@ def handle_UNICODE_EXPONENT(string):
     # ascii minus (which is actually a less good version
     # of unicode minus).
     normd = unicodedata.normalize("NFKC", string).replace("−", "-")
-    return graph.Number(normd, raw_content=normd)
+    try:
+        value = int(normd)
+    except ValueError:
+        # The lexer takes any run of exponent characters (e.g. "⁻⁻²").
+        raise SyntaxError(f"invalid exponent {string!r}") from None
+    return graph.Number(value, raw_content=normd)
 
 
 class UnitParseVisitor(udunits2ParserVisitor):
-- 
2.43.0


From 811238dea107a8fce1a566d89ecf245a56cba8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 04/24] fix: log(re ...) is the common logarithm, as it is in
 UDUNITS-2

---
 pyudunits2/_expr/sympy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index 8ef49d7..e5a0737 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -55,7 +55,7 @@ class ToSympy(unit_graph.Visitor):
             "lb": 2,
             "lg": 10,
             "ln": None,  # Sympy defaults to natual log.
-            "log": None,  # Unspecified by udunits2...
+            "log": 10,  # As udunits2, where "log" and "lg" are the same.
         }
         base = bases[node.function]
         if base is None:
-- 
2.43.0


From 87904ec9393191abaf9b042159a07affd66d003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 05/24] fix: the plural of a unit name ending in a consonant
 and y is "ies" (henries), as in UDUNITS-2

---
 pyudunits2/_udunits2_xml_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index ffbb713..a92c686 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -90,6 +90,13 @@ class UDUNITS2XMLParser:
             # not a noplural tag.
             if singular_name.endswith(("s", "ss", "sh", "ch", "x", "z")):
                 plural_name = singular_name + "es"
+            elif (
+                len(singular_name) > 1
+                and singular_name.endswith("y")
+                and singular_name[-2] not in "aeiou"
+            ):
+                # For example, henries (but not daies).
+                plural_name = singular_name[:-1] + "ies"
             else:
                 plural_name = singular_name + "s"
 
-- 
2.43.0


From b78d07b620cd2a20a005345dab8948ee0ebd7da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 06/24] fix: a basis unit gives a Dimensionality, as any unit
 does, so that it can be converted

---
 pyudunits2/_unit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index bf728dc..a02e46b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -582,11 +582,11 @@ class BasisUnit(NamedUnit):
     def __str__(self):
         return self._ref
 
-    def dimensionality(self) -> dict[BasisUnit, int]:
+    def dimensionality(self) -> Dimensionality:
         if self._dimensionless:
-            return {}
+            return Dimensionality({})
         else:
-            return {self: 1}
+            return Dimensionality({self: 1})
 
     def is_time_unit(self):
         return self._is_time_unit
-- 
2.43.0


From 1648c6faa395b3f975e427db22e58146e20da56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:38 +0000
Subject: [PATCH 07/24] fix: a basis unit may have symbols only, without a name

---
 pyudunits2/_udunits2_xml_parser.py | 2 +-
 pyudunits2/_unit.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index a92c686..496b69d 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -220,7 +220,7 @@ class UDUNITS2XMLParser:
                 # https://github.com/Unidata/UDUNITS-2/blob/c83da987387db1174cd2266b73dd5dd556f4476b/lib/udunits-1.c#L50
                 # Instead of implementing this special casing in the units handling,
                 # we attach a special attribute to a time basis unit.
-                is_time_unit = reference.name.singular == "second"
+                is_time_unit = name is not None and name.singular == "second"
 
                 unit = BasisUnit(
                     names=reference,
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index a02e46b..4e7499b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -559,7 +559,7 @@ class BasisUnit(NamedUnit):
     def __init__(
         self, *, names: Names, dimensionless: bool = False, is_time_unit: bool = False
     ):
-        ref = names.name.singular or names.symbols[0]
+        ref = names.symbols[0] if names.name is None else names.name.singular
         self._ref = ref
         self._dimensionless = dimensionless
         self._is_time_unit = is_time_unit
-- 
2.43.0


From 42b68b03083a9e1e1339f321bbc5b8a98f576c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 08/24] fix: refuse to convert date units instead of ignoring
 their reference date

DateUnit.is_convertible_to is always False, yet Converter treated
"days since 2000" and "days since 2001" as the same unit.
---
 pyudunits2/_unit.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 4e7499b..30e98ab 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -182,6 +182,12 @@ class Converter:
         self._from_unit = from_unit
         self._to_unit = to_unit
 
+        if isinstance(from_unit, DateUnit) or isinstance(to_unit, DateUnit):
+            # Without a calendar, the reference date can't be accounted for.
+            raise IncompatibleUnitsError(
+                f"Units {to_unit} and {from_unit} are not convertible"
+            )
+
         import sympy
 
         from_dimensionality = from_unit.dimensionality()
@@ -485,6 +491,9 @@ class DateUnit(UnitInterface):
         self._unit = unit
         self._reference_date = reference_date
 
+    def __str__(self):
+        return f"({self._unit} @ {self._reference_date})"
+
     def is_convertible_to(self, other: UnitInterface) -> bool:
         # TODO: We can start to do better now that we have rich dates.
         return False
-- 
2.43.0


From 53531633eec3832ef2a3e46f1a54321f490bb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 09/24] fix: only terminating shifts take part in conversions

A nested shift (as for J kg-1 degC-1) left a unit symbol in the conversion
expression or inverted the scale factor next to it, and all but the last of
a series of terminating shifts (degC @ 10) got lost.
---
 pyudunits2/_expr/split.py | 33 +++++++++++++++++++++++++++++++--
 pyudunits2/_unit.py       |  9 +++++----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/pyudunits2/_expr/split.py b/pyudunits2/_expr/split.py
index 8d58282..db12541 100644
--- a/pyudunits2/_expr/split.py
+++ b/pyudunits2/_expr/split.py
@@ -4,6 +4,7 @@ import logging
 import typing
 
 from . import graph as unit_graph
+from .substitute import Substitute
 
 _log = logging.getLogger(__name__)
 
@@ -40,12 +41,16 @@ class SplitExpr(unit_graph.Visitor):
         # will not end up with dimensionless conversions.
         # For example, K @ 271 converted to K should shift the value 271, and
         # then the K/K will cancel out.
+        is_terminating = node is self._root_node
+        if is_terminating:
+            self._root_node = node.unit
         t1, d1 = self.visit(node.unit)
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         # Looking at UDUNITS2, the shift is completely ignored in conversions
-        # unless it is the terminating operation.
-        if node is self._root_node:
+        # unless it is the terminating operation (or one of a series of
+        # terminating shifts).
+        if is_terminating:
             return unit_graph.Shift(t1, node.shift_from), d1
         else:
             return t1, d1
@@ -82,3 +87,27 @@ class SplitExpr(unit_graph.Visitor):
         if t1 is None:
             t1 = unit_graph.Identifier(name="value")
         return unit_graph.Logarithm(function=node.function, term=t1), d1
+
+
+class DropNestedShifts(Substitute):
+    """
+    Remove any shift which isn't the terminating operation of the expression.
+
+    Looking at UDUNITS2, such shifts are completely ignored. For example, a
+    conversion from `J kg-1 degC-1` is the same as one from `J kg-1 K-1`.
+
+    """
+
+    def __init__(self):
+        super().__init__({})
+
+    @classmethod
+    def from_root(cls, node: unit_graph.Node) -> unit_graph.Node:
+        if isinstance(node, unit_graph.Shift):
+            # This is the terminating shift. There may be more than one, such
+            # as for `degC @ 10`.
+            return unit_graph.Shift(cls.from_root(node.unit), node.shift_from)
+        return cls().visit(node)
+
+    def visit_Shift(self, node: unit_graph.Shift):
+        return self.visit(node.unit)
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 30e98ab..c49247b 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -389,9 +389,9 @@ class Unit(UnitInterface):
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             from ._expr.sympy import ToSympy
-            from ._expr.split import SplitExpr
+            from ._expr.split import DropNestedShifts, SplitExpr
 
-            definition = self._expanded_expr()
+            definition = DropNestedShifts.from_root(self._expanded_expr())
             t, d = SplitExpr(definition).visit(definition)
             if t is not None:
                 transform = ToSympy().visit(t)
@@ -432,9 +432,10 @@ class Unit(UnitInterface):
 
     def dimensionality(self) -> Dimensionality:
         from ._expr.dimensionality import DimensionalityCounter
-        from ._expr.split import SplitExpr
+        from ._expr.split import DropNestedShifts, SplitExpr
 
-        _, d = SplitExpr(self._definition).visit(self._definition)
+        definition = DropNestedShifts.from_root(self._definition)
+        _, d = SplitExpr(definition).visit(definition)
         r = DimensionalityCounter().visit(d)
 
         result = {}
-- 
2.43.0


From 18499d881a86104bb461337776b713d33077a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 10/24] fix: looking a unit up no longer changes what the names
 it shares with other units mean

---
 pyudunits2/_unit_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index d60e4d5..7d2e77a 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -201,15 +201,19 @@ class UnitSystem:
     def _unit_by_name(self, name: str) -> Unit | None:
         unit = self._names.get(name, None) or self._alias_names.get(name, None)
         if isinstance(unit, LazilyDefinedUnit):
+            # n.b. The definition holds on to its resolved unit. It isn't added
+            # back to the system, since another unit may meanwhile own one of
+            # its names or aliases.
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def _unit_by_symbol(self, symbol: str) -> Unit | None:
         unit = self._symbols.get(symbol, None) or self._alias_symbols.get(symbol, None)
         if isinstance(unit, LazilyDefinedUnit):
+            # n.b. The definition holds on to its resolved unit. It isn't added
+            # back to the system, since another unit may meanwhile own one of
+            # its names or aliases.
             unit = unit.resolve()
-            self.add_unit(unit, replace=True)
         return unit
 
     def unit_by_name_or_symbol(self, name_or_symbol: str) -> Unit:
-- 
2.43.0


From aad22f18a1fed1478d1698ba2778d1ebf73bd8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/24] fix: the empty unit is dimensionless, rather than a
 NotImplementedError

---
 pyudunits2/_unit_system.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 7d2e77a..5b0acaf 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -288,6 +288,9 @@ class UnitSystem:
 
     def unit(self, unit: str) -> Unit | DateUnit:
         unit_expr = parse(unit)
+        if unit_expr == unit_graph.Unhandled(""):
+            # As in UDUNITS-2, the empty unit is the dimensionless unit one.
+            unit_expr = unit_graph.Number(1, raw_content="")
 
         identifiers = ExtractIdentifiers().visit(unit_expr)
 
-- 
2.43.0


From 3a9a7a37c809442485443a0914951bde5ca3546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:35 +0000
Subject: [PATCH 12/24] fix: the text of a time has six digits of microseconds

---
 pyudunits2/_datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index e41cabe..3f21b04 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -15,7 +15,7 @@ class Time:
         if self.second or self.microseconds:
             t_str += f":{self.second:02}"
         if self.microseconds:
-            t_str += f".{self.microseconds:08}"
+            t_str += f".{self.microseconds:06}"
         return t_str
 
 
-- 
2.43.0


From 986c1c37bc2b61f8e637f8a119773d5cf95f9994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 13/24] fix: equal DateTimes have the same hash, whatever text
 they were read from

---
 pyudunits2/_datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_datetime.py b/pyudunits2/_datetime.py
index 3f21b04..b4701f6 100644
--- a/pyudunits2/_datetime.py
+++ b/pyudunits2/_datetime.py
@@ -29,6 +29,10 @@ class DateTime:
     #: The original representation of the date time before any parsing.
     raw_content: str | None = None
 
+    def __hash__(self) -> int:
+        # Consistent with __eq__.
+        return hash((self.year, self.month, self.day, self.time, self.tz_offset))
+
     def __eq__(self, other: typing.Any) -> bool:
         if not isinstance(other, DateTime):
             return NotImplemented
-- 
2.43.0


From 22f9b8248f19c7afa8fdca1f5b0f3658d40c30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 14/24] fix: a negative zero reads back as itself (it has no
 sign)

---
 pyudunits2/_grammar/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index 5799cbb..d22469a 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -32,6 +32,15 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(value, raw_content=normd)
 
 
+def handle_FLOAT(string):
+    # Preserve precision as decimal.
+    value = Decimal(string)
+    if value.is_zero():
+        # Zero has no sign (and "-0" would read back as the integer 0).
+        value = value.copy_abs()
+    return graph.Number(value=value, raw_content=string)
+
+
 class UnitParseVisitor(udunits2ParserVisitor):
     """
     A visitor which converts the parse tree into an abstract expression graph.
@@ -46,9 +55,7 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "DATE": str,
         "DIVIDE": "/",  # Drop context, such as " per ".
         "E_POWER": str,
-        "FLOAT": lambda c: graph.Number(
-            value=Decimal(c), raw_content=c
-        ),  # Preserve precision as decimal.
+        "FLOAT": handle_FLOAT,
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-- 
2.43.0


From a31de4104b574661f465b169fc9c716e086cb053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 15/24] fix: dimensionless basis units (radian) count as 1 in
 conversions, instead of staying in the result as a symbol

---
 pyudunits2/_unit.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index c49247b..09a3a77 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -207,6 +207,16 @@ class Converter:
         t1, d1 = from_unit._symbolic_definition()
         t2, d2 = to_unit._symbolic_definition()
 
+        # Dimensionless basis units (such as radian) are worth 1 in a conversion.
+        dimensionless = {
+            sympy.Symbol(str(basis_unit)): 1
+            for unit in (from_unit, to_unit)
+            for basis_unit in unit._basis_units()
+            if basis_unit.is_dimensionless()
+        }
+        d1 = d1.subs(dimensionless)
+        d2 = d2.subs(dimensionless)
+
         to_symbol = sympy.symbols("value_transformed_to_base_unit_scale")
 
         orig_qty = sympy.symbols("value")
@@ -417,6 +427,15 @@ class Unit(UnitInterface):
         ).visit(self._definition)
         return result
 
+    def _basis_units(self) -> list[BasisUnit]:
+        # The basis units found in the expanded form of this unit.
+        return [
+            basis_unit
+            for unit in self._identifier_references.values()
+            if isinstance(unit, Unit)
+            for basis_unit in unit._basis_units()
+        ]
+
     def expanded(self) -> str:
         expr = self._expanded_expr()
         # TODO: Simplify & normalise.
@@ -589,6 +608,9 @@ class BasisUnit(NamedUnit):
     def _expanded_expr(self):
         return self._definition
 
+    def _basis_units(self) -> list[BasisUnit]:
+        return [self]
+
     def __str__(self):
         return self._ref
 
-- 
2.43.0


From 7d66a580ea66687e21a11de675b0fcd0f8ce5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 16/24] fix: compare units without rounding (0.1 m 3 == 0.3 m)

---
 pyudunits2/_expr/sympy.py |  6 ++++++
 pyudunits2/_unit.py       | 32 ++++++++++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyudunits2/_expr/sympy.py b/pyudunits2/_expr/sympy.py
index e5a0737..3db2dee 100644
--- a/pyudunits2/_expr/sympy.py
+++ b/pyudunits2/_expr/sympy.py
@@ -18,6 +18,10 @@ _log = logging.getLogger(__name__)
 
 
 class ToSympy(unit_graph.Visitor):
+    def __init__(self, exact: bool = False):
+        #: Whether to represent decimals exactly (as rationals).
+        self._exact = exact
+
     if typing.TYPE_CHECKING:
 
         def visit(self, node: unit_graph.Node) -> sympy.core.expr.Expr: ...
@@ -32,6 +36,8 @@ class ToSympy(unit_graph.Visitor):
         if isinstance(node.content, str):
             return sympy_parse(node.content)
         elif isinstance(node.content, Decimal):
+            if self._exact:
+                return sympy.Rational(*node.content.as_integer_ratio())
             return sympy_parse(str(node.content))
         elif isinstance(node.content, (int, float)):
             return sympy_parse(str(node.content))
diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 09a3a77..1e69994 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -389,8 +389,9 @@ class Unit(UnitInterface):
 
         from sympy import simplify, expand
 
-        self_t, self_d = self._symbolic_definition()
-        other_t, other_d = other._symbolic_definition()
+        # Without rounding: 0.1 m · 3 == 0.3 m.
+        self_t, self_d = self._build_symbolic_definition(exact=True)
+        other_t, other_d = other._build_symbolic_definition(exact=True)
 
         eq = self_d - other_d
         sim = simplify(eq)
@@ -398,22 +399,25 @@ class Unit(UnitInterface):
 
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
-            from ._expr.sympy import ToSympy
-            from ._expr.split import DropNestedShifts, SplitExpr
+            self._cached_symbolic_definition = self._build_symbolic_definition()
+        return self._cached_symbolic_definition
 
-            definition = DropNestedShifts.from_root(self._expanded_expr())
-            t, d = SplitExpr(definition).visit(definition)
-            if t is not None:
-                transform = ToSympy().visit(t)
-            else:
-                import sympy
+    def _build_symbolic_definition(
+        self, exact: bool = False
+    ) -> tuple[SympyExpr, SympyExpr]:
+        from ._expr.sympy import ToSympy
+        from ._expr.split import DropNestedShifts, SplitExpr
 
-                transform = sympy.Symbol("value")
+        definition = DropNestedShifts.from_root(self._expanded_expr())
+        t, d = SplitExpr(definition).visit(definition)
+        if t is not None:
+            transform = ToSympy(exact=exact).visit(t)
+        else:
+            import sympy
 
-            prepared = ToSympy().visit(d)
+            transform = sympy.Symbol("value")
 
-            self._cached_symbolic_definition = transform, prepared
-        return self._cached_symbolic_definition
+        return transform, ToSympy(exact=exact).visit(d)
 
     def _expanded_expr(self) -> Node:
         from ._expr.substitute import Substitute
-- 
2.43.0


From ffd0cff0e1377693a4842918e704d1fcbb47262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 17/24] fix: read a unit system which has XML comments in it

---
 pyudunits2/_udunits2_xml_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 496b69d..addf79b 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -33,12 +33,17 @@ class Tag:
     def from_element(cls, element: etree.Element) -> Tag:
         _, _, tag_name = element.tag.partition("}")
 
-        text = (element.text or "").strip()
+        text = element.text or ""
         children = []
 
-        if len(element) > 0:
-            for child in element:
-                children.append(cls.from_element(child))
+        for child in element:
+            if not isinstance(child.tag, str):
+                # XML comments and processing instructions aren't content, but
+                # they may have a part of the text behind them.
+                text += child.tail or ""
+                continue
+            children.append(cls.from_element(child))
+        text = text.strip()
         return cls(name=tag_name, text=text, children=children)
 
     def pop_first_matching_tag(self, tag_name: str) -> Tag | None:
-- 
2.43.0


From cefd4ebc0bdeacc27c06315a3f91c2eafaa9cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 18/24] fix: read a unit system whose tags have no namespace

---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index addf79b..c733e75 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -31,7 +31,8 @@ class Tag:
 
     @classmethod
     def from_element(cls, element: etree.Element) -> Tag:
-        _, _, tag_name = element.tag.partition("}")
+        # n.b. A tag need not have a namespace.
+        tag_name = etree.QName(element).localname
 
         text = element.text or ""
         children = []
-- 
2.43.0


From ee427d954cacc2fd319de86ef9b46264bec73091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 19/24] fix: read numbers of any length, and refuse those
 beyond the range of Decimal with a SyntaxError

---
 pyudunits2/_grammar/__init__.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyudunits2/_grammar/__init__.py b/pyudunits2/_grammar/__init__.py
index d22469a..e27c9a3 100644
--- a/pyudunits2/_grammar/__init__.py
+++ b/pyudunits2/_grammar/__init__.py
@@ -1,5 +1,5 @@
 import unicodedata
-from decimal import Decimal
+from decimal import Decimal, InvalidOperation
 
 from .._expr import graph as graph
 from ._antlr4_runtime import (
@@ -32,9 +32,22 @@ def handle_UNICODE_EXPONENT(string):
     return graph.Number(value, raw_content=normd)
 
 
+def handle_INT(string):
+    try:
+        value = int(string)
+    except ValueError:
+        # Python limits the number of digits of an integer.
+        value = Decimal(string)
+    return graph.Number(value=value, raw_content=string)
+
+
 def handle_FLOAT(string):
     # Preserve precision as decimal.
-    value = Decimal(string)
+    try:
+        value = Decimal(string)
+    except InvalidOperation:
+        # For example, 1e9999999999999999999.
+        raise SyntaxError(f"number out of range {string!r}") from None
     if value.is_zero():
         # Zero has no sign (and "-0" would read back as the integer 0).
         value = value.copy_abs()
@@ -59,14 +72,14 @@ class UnitParseVisitor(udunits2ParserVisitor):
         "HOUR_MINUTE_SECOND": str,
         "HOUR_MINUTE": str,
         "ID": graph.Identifier,
-        "INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "INT": handle_INT,
         "LOG": lambda c: c.split("(")[0].strip(),
         "MULTIPLY": None,
         "OPEN_PAREN": None,
         "PERIOD": str,
         "RAISE": None,
         "TIMESTAMP": str,
-        "SIGNED_INT": lambda c: graph.Number(value=int(c), raw_content=c),
+        "SIGNED_INT": handle_INT,
         "SHIFT_OP": None,
         "WS": None,
         "UNICODE_EXPONENT": handle_UNICODE_EXPONENT,
-- 
2.43.0


From 92405787e2ee45ee03adcca378dbf780860fa778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 20/24] fix: keep the order of a prefix's symbols, rather than
 one that differs between processes

---
 pyudunits2/_udunits2_xml_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index c733e75..4a6f77f 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -131,9 +131,11 @@ class UDUNITS2XMLParser:
         # Keep the value as a string. We can parse it later.
         value: str = value_tag.text or ""
 
-        symbols = set()
+        # n.b. The order of the document is kept (unlike with a set, where it is
+        # different in each process).
+        symbols = []
         for symbol in tag.pop_iter_tags("symbol"):
-            symbols.add(symbol.text)
+            symbols.append(symbol.text)
 
         if tag.children or tag.text:
             cls.unhandled_content_detected(
-- 
2.43.0


From b0f56c1f96a0560c4244130fd5cbe4db41963398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 21/24] fix: read XML documents in the encoding they declare,
 rather than in that of the locale

---
 pyudunits2/_udunits2_xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_udunits2_xml_parser.py b/pyudunits2/_udunits2_xml_parser.py
index 4a6f77f..ed02b74 100644
--- a/pyudunits2/_udunits2_xml_parser.py
+++ b/pyudunits2/_udunits2_xml_parser.py
@@ -150,7 +150,8 @@ class UDUNITS2XMLParser:
 
     @classmethod
     def parse_file(cls, path: Path) -> UnitSystem:
-        with path.open("rt") as fh:
+        # n.b. It is the document that declares its encoding.
+        with path.open("rb") as fh:
             tree = etree.parse(fh)
         root = tree.getroot()
 
-- 
2.43.0


From 0ae9409d5556d80387618a31f5dd0e2577425936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 22/24] fix: compare what identifiers stand for, not only the
 text, when comparing units

---
 pyudunits2/_unit.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 1e69994..0462ed0 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -382,8 +382,7 @@ class Unit(UnitInterface):
             return NotImplemented
 
         assert isinstance(other, Unit)
-        # TODO: Use equality of the graph, not stringification.
-        if str(other._definition) == str(self._definition):
+        if self._has_same_definition(other):
             # Short-circuit identical definitions.
             return True
 
@@ -397,6 +396,29 @@ class Unit(UnitInterface):
         sim = simplify(eq)
         return expand(sim, trig=False) == 0 and self_t == other_t
 
+    def _has_same_definition(self, other: Unit) -> bool:
+        # n.b. The same text isn't enough, since an identifier may stand for
+        # different units (e.g. in different unit systems).
+        if self is other:
+            return True
+        # TODO: Use equality of the graph, not stringification.
+        if str(other._definition) != str(self._definition):
+            return False
+        if isinstance(self, BasisUnit) and isinstance(other, BasisUnit):
+            return True
+        references = self._identifier_references
+        other_references = other._identifier_references
+        if references.keys() != other_references.keys():
+            return False
+        for identifier, reference in references.items():
+            other_reference = other_references[identifier]
+            if isinstance(reference, Unit) and isinstance(other_reference, Unit):
+                if not reference._has_same_definition(other_reference):
+                    return False
+            elif reference != other_reference:
+                return False
+        return True
+
     def _symbolic_definition(self) -> tuple[SympyExpr, SympyExpr]:
         if self._cached_symbolic_definition is None:
             self._cached_symbolic_definition = self._build_symbolic_definition()
-- 
2.43.0


From 2d4d6710e9696d2bdced6c7b3ebebf3632e2b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:23 +0000
Subject: [PATCH 23/24] fix: resolve definitions again after what they mention
 may have changed

A unit whose definition had been resolved kept the units it was resolved to,
while one not yet asked for got those registered later: what a unit meant
depended on whether it had been looked up before a registration.
---
 pyudunits2/_unit_system.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyudunits2/_unit_system.py b/pyudunits2/_unit_system.py
index 5b0acaf..52e5106 100644
--- a/pyudunits2/_unit_system.py
+++ b/pyudunits2/_unit_system.py
@@ -39,9 +39,14 @@ class LazilyDefinedUnit:
         self._names = names
         # self._resolved_definition: Node | None = None
         self._resolved_unit: NamedUnit | None = None
+        # The state of the system which the resolved unit belongs to.
+        self._resolved_at: int | None = None
 
     def resolve(self) -> NamedUnit:
-        if self._resolved_unit is None:
+        # n.b. What has been registered since may change what the definition's
+        # identifiers denote.
+        registrations = self._unit_system._registrations
+        if self._resolved_at != registrations:
             unit_expr = parse(self._definition)
 
             from ._expr.atoms import ExtractIdentifiers
@@ -58,6 +63,7 @@ class LazilyDefinedUnit:
                 identifier_references=identifier_references,
                 names=self._names,
             )
+            self._resolved_at = registrations
 
         return self._resolved_unit
 
@@ -94,6 +100,9 @@ class UnitSystem:
         self._prefix_names: dict[str, Prefix] = {}
         self._prefix_symbols: dict[str, Prefix] = {}
 
+        # Counts the changes, for what has been resolved to be kept until the next.
+        self._registrations = 0
+
     @classmethod
     def from_udunits2_xml(cls, path: pathlib.Path | None = None) -> UnitSystem:
         # Lazy import of the XML functionality, since it is not a
@@ -118,6 +127,7 @@ class UnitSystem:
         self._prefix_names[prefix.name] = prefix
         for symbol in prefix.symbols:
             self._prefix_symbols[symbol] = prefix
+        self._registrations += 1
 
     def add_unit(self, unit: NamedUnit | LazilyDefinedUnit, replace=False) -> None:
         ref = unit._names
@@ -154,6 +164,8 @@ class UnitSystem:
         for alias in ref.alias_symbols:
             self._alias_symbols[alias] = unit
 
+        self._registrations += 1
+
     #     def get_symbol(self, symbol: str) -> SymbolPrefix:
     #         # This is case-sensitive.
     #         # TODO: Would be nice to be able to do get(symbol, None)?
-- 
2.43.0


From 3c5c9be0240b8e15d58a3cacbd2df2af5c781dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:02 +0000
Subject: [PATCH 24/24] fix: convert arrays of integers without overflow

The scale of a conversion may be an integer (3600 from hours to seconds),
in which case the result silently overflowed the array's integer type, or
the conversion failed if the scale itself was too big for it.
---
 pyudunits2/_unit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyudunits2/_unit.py b/pyudunits2/_unit.py
index 0462ed0..3ca4822 100644
--- a/pyudunits2/_unit.py
+++ b/pyudunits2/_unit.py
@@ -254,6 +254,10 @@ class Converter:
     def convert(self, values):
         # TODO: Sympy can return an expression here. We never want it
         #  to - it should always be a number-like.
+        dtype = getattr(values, "dtype", None)
+        if dtype is not None and dtype.kind in "biu":
+            # Integers of a fixed size would silently overflow.
+            values = values.astype(float)
         return self._converter(values)
 
 
-- 
2.43.0

