From a574249d454f1eab1230ce589d73920c6410cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 01/73] fix: display numbers with more integer digits than the
 precision leaves room for

---
 modularcalculator/objects/number.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..3bdfdfd 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -1,6 +1,6 @@
 #!/usr/bin/python3
 
-from decimal import Decimal, getcontext, InvalidOperation
+from decimal import Decimal, getcontext, localcontext, InvalidOperation
 from importlib import import_module
 import math
 
@@ -70,7 +70,10 @@ class Number:
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        with localcontext() as context:
+            # Make sure there is room for all the integer digits, as well as the decimal places
+            context.prec = max(context.prec, max(Decimal(dec_num).adjusted(), 0) + NUMBER['decimal_places'] + 2)
+            val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From 782b31286082ccfcc59228a18a7d374c96c5bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 02/73] fix: convert to a unit of the same dimension when
 removing duplicate units

---
 modularcalculator/services/unitnormaliser.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..5dca7bc 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -266,7 +266,8 @@ class UnitNormaliser:
         if len(unit.list()) > 1:
             # Get list of dimensions and index of subunits
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
+            unitpowers = unit.list().copy()
+            for di in [(u.unit.dimension, i) for i, u in enumerate(unitpowers)]:
                 if di[0] not in dimensions:
                     dimensions[di[0]] = []
                 dimensions[di[0]].append(di[1])
@@ -277,18 +278,18 @@ class UnitNormaliser:
                     # Need to de-dupe
                     power = Number(0)
                     for i in units_i:
-                        power += unit.list()[i].power
+                        power += unitpowers[i].power
                     if power.to_decimal() != 0:
                         # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                        units_to_replace = [unitpowers[i] for i in units_i]
+                        replace_all_with_unit = units_to_replace[0].unit
+                        for unit_to_replace in units_to_replace[1:]:
+                            power = unit_to_replace.power
+                            value = unit.removeandconvert(value, unit_to_replace.unit, power, False)
+                            value = unit.addandconvert(value, replace_all_with_unit, power, False)
                     else:
                         # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
+                        units_to_remove = [unitpowers[i] for i in units_i]
                         for unit_to_remove in units_to_remove:
                             value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
 
-- 
2.43.0


From 0c015a3e8252dcce0857f01e7bbdb2b48a6bc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 03/73] fix: convert strings and booleans to numbers in array
 ranges

---
 modularcalculator/features/arrays/arrays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..5561fb6 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -228,6 +228,9 @@ class ArrayElement():
         else:
             return [element_result]
 
+        element_result = OperandResult(calculator.number(element_result.value), element_result.unit, element_result.ref)
+        end_element_result = OperandResult(calculator.number(end_element_result.value), end_element_result.unit, end_element_result.ref)
+
         step_result = OperandResult(Number(1), element_result.unit, None)
         if end_element_result is not None and end_element_result.value < element_result.value:
             step_result = OperandResult(Number(-1), element_result.unit, None)
@@ -238,6 +241,7 @@ class ArrayElement():
                 raise step_result.value
             if not calculator.validate_number(step_result.value):
                 raise ExecuteException("Arrays with range must be numerical", [], None)
+            step_result = OperandResult(calculator.number(step_result.value), step_result.unit, step_result.ref)
             state['items'] += len(self.step)
 
         if element_result.unit is not None or end_element_result.unit is not None or step_result.unit is not None:
-- 
2.43.0


From e6d663f153db263fc7df2ebe1f6a51e51b7e7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 04/73] fix: don't change the representation of a function's
 inputs when setting that of its result

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..9b5ce4e 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # Don't change the number itself, it could be one of the inputs
+                    result_value = copy.copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From 24437053b6c862236f99e84ce3bd2fe737e08a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 05/73] fix: return the new value from assignment operators in
 stateless mode instead of failing

---
 .../features/state/assignmentoperators.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..4a328b4 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -136,14 +136,14 @@ class AssignmentOperatorsFeature(Feature):
 
     def assignment_operator(self, sym, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
+            varname = refs[0].var
+            var = self.vars[varname]
+            op = self.ops_list[sym]
+            op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
             if 'stateless' not in flags.keys() or not flags['stateless']:
-                varname = refs[0].var
-                var = self.vars[varname]
-                op = self.ops_list[sym]
-                op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
                 self.vars[varname] = (op_result.value, op_result.unit)
-            res = OperationResult(self.vars[varname][0])
-            res.set_unit(self.vars[varname][1])
+            res = OperationResult(op_result.value)
+            res.set_unit(op_result.unit)
             return res
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From c9a3e13a4a5f4f29cf13e573042d9003dcfe63bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 06/73] fix: don't delete variables in stateless mode

---
 modularcalculator/features/state/assignmentfunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..b6216ab 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -45,13 +45,17 @@ class AssignmentFunctionsFeature(Feature):
             1)
 
     def func_reset(self, vals, units, refs, flags):
-        self.vars = {}
+        if 'stateless' not in flags.keys() or not flags['stateless']:
+            self.vars = {}
         return OperationResult(None)
 
     def func_delete(self, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
             varname = refs[0].var
-            del self.vars[varname]
+            if varname not in self.vars:
+                raise CalculatorException("Variable {} not found".format(varname))
+            if 'stateless' not in flags.keys() or not flags['stateless']:
+                del self.vars[varname]
             return OperationResult(None)
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From 9797f7ce387d19edcdcd87db1ebbb4b3bd018ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 07/73] fix: restore the variables when an inline function
 fails in any way

---
 modularcalculator/features/structure/inlinefunctions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..3396ca2 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -158,15 +158,11 @@ class InlineFunctionsPointerHandler:
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
-            # Restore calculator state
-            calculator.vars = backup_vars
-
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From 348856ea74c4efd120a03bc56bf5daadd77f4694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 08/73] fix: report unknown features with a calculator
 exception

---
 modularcalculator/modularcalculator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index a350181..d31cd82 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -120,6 +120,8 @@ class ModularCalculator(NumericalEngine):
     def add_feature_to_be_installed(self, name):
         if name in self.features_to_install:
             return
+        if name not in self.feature_list:
+            raise CalculatorException("Feature {0} not found".format(name))
         self.features_to_install.add(name)
         feature = self.feature_list[name]
         dependencies = feature.dependencies()
-- 
2.43.0


From 91823ffb0fe79b8b6c81cf53ca355c9113a2fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 09/73] fix: don't confuse statements that only differ in
 spaces when looking for the end of a statement

---
 modularcalculator/features/structure/terminator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..404836d 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -43,7 +43,7 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
+            func_item_text = [(item.desc(), item.text) for item in func_items]
             if func_item_text == self.last_failed_terminator:
                 return None, None, None
 
-- 
2.43.0


From b79e0aa11796548787aeee246ae1d6a86d539414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 10/73] fix: only remove the prefix of a number once

---
 modularcalculator/features/numerical/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..34ab0da 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,7 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        return val.lower().replace(prefix, '', 1)
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
-- 
2.43.0


From e0ec963fd5d001932e16bce254c5aad2834d4475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 11/73] fix: use the exact number of bits in bitwise negation

---
 modularcalculator/features/numerical/bitwiseoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..bf87a02 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -110,7 +110,7 @@ class BitwiseOperatorsFeature(Feature):
         if hasattr(dec_num, 'binary_number_width'):
             mask_val = 2**dec_num.binary_number_width - 1
         else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+            mask_val = 2**int_val.bit_length() - 1
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
 
-- 
2.43.0


From 1714fa9da2afc2436ec3cb6d204abd0f0ebe271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 12/73] fix: import the exceptions raised when installing
 features

---
 modularcalculator/modularcalculator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index d31cd82..cb2068a 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -1,6 +1,7 @@
 #!/usr/bin/python3
 
 from modularcalculator.objects import *
+from modularcalculator.objects.exceptions import *
 from modularcalculator.numericalengine import NumericalEngine
 import modularcalculator.features.layout
 import modularcalculator.features.presets
-- 
2.43.0


From af2e5328a00733728c262e6c3ce959a9bae311e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 13/73] fix: exact date differences over long periods

---
 modularcalculator/features/dates/datefunctions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..7723d0e 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -150,8 +150,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
-        seconds = round(seconds, min(6, getcontext().prec))
+        seconds = Number(td // timedelta(microseconds=1), 1000000)
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         value = seconds
-- 
2.43.0


From 7dfa4a4ccddf9d354b0fa137b05fce26bdf73c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 14/73] fix: exact date addition and subtraction over long
 periods

---
 modularcalculator/features/dates/datefunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index 7723d0e..7987917 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -132,7 +132,7 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        td = timedelta(microseconds=int(round(seconds * Number(1000000))))
 
         dt += td
 
-- 
2.43.0


From 0be15d365a02765690a9ca36894ea5094ba1be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:14 +0000
Subject: [PATCH 15/73] fix: choose units for numbers that don't fit into a
 float

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 5dca7bc..18b4cf2 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -297,7 +297,7 @@ class UnitNormaliser:
         return value, unit
 
     def get_closeness(self, num):
-        closeness = abs(math.log10(abs(float(num))) - self.simplify_preferred_magnitude)
+        closeness = abs(float(abs(num.to_decimal()).log10()) - self.simplify_preferred_magnitude)
         if num < self.simplify_penalise_below:
             closeness *= self.simplify_penalty
         return closeness
-- 
2.43.0


From d83a21c1424296023cdb98f4cbdebd9709358f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 16/73] fix: display numbers written in base 10 of the
 arbitrary base notation

---
 modularcalculator/features/numerical/bases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 34ab0da..7b381fc 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -101,7 +101,8 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
-            return val.to_string(self)
+            # Ignore the number's own representation, it may be the one being displayed
+            return Number(val.num, val.den, skip_checks=True).to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
 
-- 
2.43.0


From d1bf3aca560b5fb58df8132b045e5773bbc349eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 17/73] fix: bitwise negation of numbers with more bits than
 their recorded width

---
 modularcalculator/features/numerical/bitwiseoperators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index bf87a02..31c5767 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -107,10 +107,9 @@ class BitwiseOperatorsFeature(Feature):
             raise CalculatorException('Operator requires positive integers')
 
         int_val = int(dec_num)
-        if hasattr(dec_num, 'binary_number_width'):
-            mask_val = 2**dec_num.binary_number_width - 1
-        else:
-            mask_val = 2**int_val.bit_length() - 1
+        # The number may need more bits than its width, for example after a left shift
+        width = max(getattr(dec_num, 'binary_number_width', 0), int_val.bit_length())
+        mask_val = 2**width - 1
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
 
@@ -138,5 +137,5 @@ class BitwiseOperatorsFeature(Feature):
             if hasattr(val, 'binary_number_width'):
                 width = max(width, val.binary_number_width)
             else:
-                width = max(width, BasesFeature.get_number_width(self, val.to_string(self), BinaryNumbersFeature.bin_prefix))
+                width = max(width, abs(int(val)).bit_length())
         return width
-- 
2.43.0


From 3279f658c2314f9edd366e8a2ccaac2d1de3ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 18/73] fix: never display a number that rounds to zero as -0

---
 modularcalculator/objects/number.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 3bdfdfd..6c00067 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,13 +67,14 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
-        if dec_num == 0:
-            # This is to avoid getting '-0'
-            dec_num = 0
         with localcontext() as context:
             # Make sure there is room for all the integer digits, as well as the decimal places
             context.prec = max(context.prec, max(Decimal(dec_num).adjusted(), 0) + NUMBER['decimal_places'] + 2)
-            val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+            dec_num = round(dec_num, NUMBER['decimal_places'])
+            if dec_num == 0:
+                # This is to avoid getting '-0'
+                dec_num = 0
+            val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From c543e9b91bcc5184c73571b2cc81d23691af2d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 19/73] fix: don't leave a point behind numbers too small to be
 displayed in a base

---
 modularcalculator/features/numerical/bases.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 7b381fc..df0c1a5 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -126,8 +126,9 @@ class BasesFeature(Feature):
                 places += 1
             power -= 1
 
-        if negative:
-            string = '-' + string
         if string.find('.') > -1:
-            string = string.rstrip('0')
+            # Numbers too small for the number of places have no digits left after the point
+            string = string.rstrip('0').rstrip('.')
+        if negative and string != '0':
+            string = '-' + string
         return string
-- 
2.43.0


From da638e007661fd5c795bafd6c2e6fa8f26f5bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 20/73] fix: refuse illegal digits in base 10 of the arbitrary
 base notation

---
 modularcalculator/features/numerical/bases.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index df0c1a5..19f3c7d 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -65,8 +65,6 @@ class BasesFeature(Feature):
             return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
 
-- 
2.43.0


From 18ca12084152d38d41d3e0f3b1c58552c81f91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:46 +0000
Subject: [PATCH 21/73] fix: keep the width of the operand in bitwise negation

---
 modularcalculator/features/numerical/bitwiseoperators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index 31c5767..0487caf 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -113,7 +113,7 @@ class BitwiseOperatorsFeature(Feature):
         flipped_val = ~int_val
         masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
 
-        masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
+        masked_flipped_val.binary_number_width = width
 
         return OperationResult(masked_flipped_val)
 
-- 
2.43.0


From ab1f8a5d792c09358fd9d79b77bdc5b6587a52ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 22/73] fix: use the exact size of the acre

---
 modularcalculator/features/unitdefinitions/area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/area.py b/modularcalculator/features/unitdefinitions/area.py
index 068dff0..4fa5697 100755
--- a/modularcalculator/features/unitdefinitions/area.py
+++ b/modularcalculator/features/unitdefinitions/area.py
@@ -30,7 +30,7 @@ class UnitDefinitionAcre(UnitDefinition):
 
     namelist = ['acres','acre']
     symbollist = ['ac']
-    unitscale = Number('4046.9')
+    unitscale = Number('4046.8564224')
     systems = ['us', 'uk']
     use_for_condense = False
 
-- 
2.43.0


From 0f32b3d546fda166c0ca07575b621952b426d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 23/73] fix: treat temperatures as differences in compound
 units

---
 modularcalculator/objects/units.py           |  3 +++
 modularcalculator/services/unitnormaliser.py | 14 +++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..e2772e2 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -353,6 +353,9 @@ class UnitPowerList(AbstractPowerList):
             return finalstrings
 
     def convert(self, num, power, relative):
+        # A unit made of several parts, or with a power, is never absolute (e.g. degrees Celsius per hour)
+        if len(self.list()) != 1 or self.list()[0].power != Number(1):
+            relative = True
         for unitpower in self.list():
             num = unitpower.unit.convert(num, unitpower.power * power, relative)
         return num
diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 18b4cf2..ef650f4 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -241,15 +241,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -285,13 +285,13 @@ class UnitNormaliser:
                         replace_all_with_unit = units_to_replace[0].unit
                         for unit_to_replace in units_to_replace[1:]:
                             power = unit_to_replace.power
-                            value = unit.removeandconvert(value, unit_to_replace.unit, power, False)
-                            value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                            value = unit.removeandconvert(value, unit_to_replace.unit, power, True)
+                            value = unit.addandconvert(value, replace_all_with_unit, power, True)
                     else:
                         # Units cancel out
                         units_to_remove = [unitpowers[i] for i in units_i]
                         for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
+                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, True)
 
 
         return value, unit
-- 
2.43.0


From c711c65e64c2d32ff74c9617e46069c5dc707a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 24/73] fix: a US dram is an eighth of a US fluid ounce

---
 modularcalculator/features/unitdefinitions/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/unitdefinitions/volume.py b/modularcalculator/features/unitdefinitions/volume.py
index bf2276a..c44beb4 100755
--- a/modularcalculator/features/unitdefinitions/volume.py
+++ b/modularcalculator/features/unitdefinitions/volume.py
@@ -87,7 +87,7 @@ class UnitDefinitionUKGallon(UnitDefinition):
 class UnitDefinitionUSDram(UnitDefinition):
 
     namelist = ['US drams','US dram']
-    unitscale = Number('0.00000184834559765625')
+    unitscale = Number('0.0000036966911953125')
     systems = ['us']
 
 class UnitDefinitionUSFluidOunce(UnitDefinition):
-- 
2.43.0


From 6033d0852fdd6ad9a5976bf2816d5c99dbce96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 25/73] fix: don't take the start of a unit symbol for a
 constant

---
 modularcalculator/features/state/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index f9e2061..139364a 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)')
+    constant_regex = re.compile(r'([a-zA-Z]+)(?![^\W\d_])')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
-- 
2.43.0


From d4e191dc32566cd772dfb46596abe79cead70fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 26/73] fix: format the remainder of a temperature as a
 difference

---
 modularcalculator/features/units/unitfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index d221f93..c6fd50a 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -75,8 +75,10 @@ class GeneralUnitFunctionsFeature(Feature):
 
         parts = []
         for systemunit in nonprefixedsystemunits:
-            num = unit.convertfrom(num, False)
-            num = systemunit.convertto(num, False)
+            # Anything left over from larger units is relative to them (e.g. degrees Celsius)
+            relative = len(parts) > 0
+            num = unit.convertfrom(num, relative)
+            num = systemunit.convertto(num, relative)
             unit = systemunit
             last = (systemunit == nonprefixedsystemunits[-1])
             if num.to_decimal() >= 1 or last:
-- 
2.43.0


From 2c4409a5aebd768eea318bf00c7ef56f389fe0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:13 +0000
Subject: [PATCH 27/73] fix: add up the powers of all parts of a unit with the
 same dimension

---
 modularcalculator/objects/units.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index e2772e2..4b41d70 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -218,12 +218,13 @@ class AbstractPowerList:
         return newlist
 
     def deduplicate(self):
-        newlist = self.copy()
-        for i, obj in enumerate(newlist.list()):
-           duplicates = [o for j, o in enumerate(newlist.list()[i + 1:]) if o.key() == obj.key()]
-           for duplicate in duplicates:
-               obj.power += duplicate.power
-               newlist._del(duplicate)
+        newlist = type(self)()
+        for obj in self.list():
+            existing = newlist.find(obj.key())
+            if existing is None:
+                newlist._add(obj.copy())
+            else:
+                existing.power += obj.power
         return newlist.remove_zeros()
 
     def remove_zeros(self):
-- 
2.43.0


From 47062b9f61c2d8d099a5182f68c81a1fbde92f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 28/73] fix: only replace whole powers of units when
 simplifying

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index ef650f4..f305b39 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -213,7 +213,7 @@ class UnitNormaliser:
 
                     found = False
                     for unitsfound in unitsfound_list:
-                        multpower = min([unit.find(u.unit).power / u.power for u in unitsfound])
+                        multpower = math.floor(min([unit.find(u.unit).power / u.power for u in unitsfound]))
                         if (len(unitsfound) > 1) or (len(unit.list()) == 1 and unit.list()[0].power.to_decimal() < 0 and unit.list()[0].power == -(power * multpower)):
                             closest_unit = None
                             closest_value = None
-- 
2.43.0


From 4d57f9d9be22b081a759e8a214beb927ad43c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 29/73] fix: multiply quantities whose units cancel out
 completely

---
 modularcalculator/services/unitnormaliser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index f305b39..ecf4535 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -150,6 +150,9 @@ class UnitNormaliser:
                     for j in range(i + 1, len(values)):
                         if units[i] is not None and units[j] is not None:
                             values[i], units[i], values[j], units[j] = self.normalise_from_left(values[i], units[i].copy(), values[j], units[j].copy(), relative)
+                            if units[j] is None:
+                                # Everything has been cancelled out
+                                continue
                             values[i], units[i], values[j], units[j] = self.normalise_from_right(values[i], units[i].copy(), values[j], units[j].copy(), relative)
             else:
                 for i in range(1, len(units)):
-- 
2.43.0


From b1c6c800614322f745e0a5b27a6dcd66d39896e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 30/73] fix: stop simplifying units that are replaced by each
 other forever

---
 modularcalculator/services/unitnormaliser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index ecf4535..567f0ec 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -201,7 +201,10 @@ class UnitNormaliser:
             powerlist = [Number(1), Number(-1)]
             replacedimensions_list = [self.normalised_dimension(d).multiply(p) for d in dimensions_list for p in powerlist]
 
-            while True:
+            # Stop if the units have come up before, otherwise we'd keep replacing the same units forever
+            seen = []
+            while unit not in seen:
+                seen.append(unit.copy())
                 unitlist = self.get_subunit_list(unit)
                 systems = set([s for u in unitlist for s in u.unit.systems])
                 unitsfound_list_list = self.find_units_matching_dimensions(replacedimensions_list, unitlist)
-- 
2.43.0


From e4a42900aeb64930d73c0c2aec75b430b17af7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 31/73] fix: format quantities of zero

---
 modularcalculator/features/units/unitfunctions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index c6fd50a..e43f8f6 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -94,7 +94,7 @@ class GeneralUnitFunctionsFeature(Feature):
                         num = new_unit.convertto(num, False)
                         num -= num_of_unit
                         unit = new_unit
-                if num_of_unit.to_decimal() != 0:
+                if num_of_unit.to_decimal() != 0 or (last and len(parts) == 0):
                     parts.append("{0} {1}".format(num_of_unit.to_string(self), unit.get_name(num_of_unit)))
 
         res = OperationResult(str.join(', ', parts))
@@ -102,6 +102,8 @@ class GeneralUnitFunctionsFeature(Feature):
         return res
 
     def find_first_unit_prefix_at_least_one(self, num, unit, systemunits):
+        if num.to_decimal() == 0:
+            return num, unit
         prefixedunitsofsametype = [s for s in systemunits if s.namelist[0] == unit.namelist[0]]
         old_num = unit.convertfrom(num, False)
         for prefixedunit in prefixedunitsofsametype:
-- 
2.43.0


From df93f9587c4a512c7fa6c593be58d070f87990ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 32/73] fix: don't take the start of a name in an array for the
 step symbol

---
 modularcalculator/features/arrays/arrays.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 5561fb6..6de867c 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -5,6 +5,8 @@ from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 from modularcalculator.features.feature import Feature
 
+import re
+
 
 class ArraysFeature(Feature):
 
@@ -128,7 +130,7 @@ class ArraysFeature(Feature):
         symbol = self.feature_options['arrays.arrays']['Step']
 
         array = ('array' in flags.keys() and flags['array'])
-        if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol:
+        if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol and not (symbol.isalpha() and re.match(r'\w', next[len(symbol):])):
             return None, None, {'end': True, 'array_step': True}
 
         return None, None, None
-- 
2.43.0


From d475cfd5ad678e5214ff32fe9d8d4804ec2e11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 33/73] fix: don't change an array when preparing it as a
 result

---
 modularcalculator/engine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..9a42ae5 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -6,6 +6,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.units import *
 from modularcalculator.services.unitnormaliser import *
 
+import copy
 import time
 
 
@@ -325,9 +326,8 @@ class Engine:
         if answer is None:
             return None
         if type(answer.value) == list:
-            # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            # If answer is an array, apply finalization to each element, without changing the array itself as it could be the value of a variable
+            answer.value = [self.finalize(copy.copy(ans)) for ans in answer.value]
         else:
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
-- 
2.43.0


From 11274e628dd702733135f418fd70ac2dc8dc8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 34/73] fix: fail when any statement of an inline function
 fails

---
 modularcalculator/features/structure/inlinefunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 3396ca2..22f1d63 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -152,6 +152,8 @@ class InlineFunctionsPointerHandler:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
                         val = calculator.execute(statement_items, flags.copy())
+                        if isinstance(val.value, Exception):
+                            raise val.value
                     statement_items = []
                 else:
                     statement_items.append(item)
-- 
2.43.0


From 2030ee2e8f407793af2241c1e3a9247e54b51785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:37 +0000
Subject: [PATCH 35/73] fix: refuse programs that are nested too deeply with a
 calculator exception

---
 modularcalculator/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9a42ae5..f26a00e 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -50,7 +50,10 @@ class Engine:
 
             try:
                 # Parse statements from expression
-                statements, length, return_flags = self.parse(expr, flags)
+                try:
+                    statements, length, return_flags = self.parse(expr, flags)
+                except RecursionError:
+                    raise ParsingException("Nested too deeply", [[]], expr)
 
                 for i, items in enumerate(statements):
                     result = CalculatorResult(items_text(items), items)
@@ -78,6 +81,9 @@ class Engine:
                         except CalculatorException as err:
                             raise ExecutionException(err.message, statements[0:i] + [[]], None, False)
 
+                        except RecursionError:
+                            raise ExecutionException("Nested too deeply", statements[0:i] + [[]], None, False)
+
                     response.add_result(result)
 
                     if 'include_state' in flags and flags['include_state']:
-- 
2.43.0


From e05a208e3cfaf6f19228a05b1402f499da52b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 36/73] fix: apply assignment operators to the whole array on
 their right

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 4a328b4..73b5c52 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,7 +50,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -59,7 +59,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -68,7 +68,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -77,7 +77,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -86,7 +86,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -95,7 +95,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
@@ -104,7 +104,7 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
+            ['variable', ['number', 'array']]),
         {'units_normalise': False})
 
     def op_var_increment(self, vals, units, refs, flags):
-- 
2.43.0


From a9fe4ae5859812aca649e61b896f4f425bc8e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 37/73] fix: delete variables that hold an array

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index b6216ab..fd7c8a6 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         if 'stateless' not in flags.keys() or not flags['stateless']:
-- 
2.43.0


From a119beba7997baa8977dfeff5ac5f62d550474da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:32 +0000
Subject: [PATCH 38/73] fix: keep the notation of the result of the operator in
 assignment operators

---
 .../features/state/assignmentoperators.py          | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 73b5c52..c0d0ab8 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -51,7 +51,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -60,7 +60,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -69,7 +69,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -78,7 +78,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -87,7 +87,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -96,7 +96,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -105,7 +105,7 @@ class AssignmentOperatorsFeature(Feature):
             1,
             1,
             ['variable', ['number', 'array']]),
-        {'units_normalise': False})
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From 10eb2b47fd72a75635178618cbb71fe0de7c6b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 39/73] fix: don't take arrays and functions for strings

---
 modularcalculator/features/strings/strings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..7b7b6d9 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -94,6 +94,8 @@ class StringsFeature(Feature):
         try:
             if isinstance(value, Number):
                 value.to_string(self)
+            elif isinstance(value, (list, Item)):
+                return False
             else:
                 str(value)
             return True
-- 
2.43.0


From a9180d39d012b49824acaacd8e113bfd95800916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:55 +0000
Subject: [PATCH 40/73] fix: convert angles to radians in trigonometric
 functions

---
 .../numerical/trigonometryfunctions.py        | 40 +++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/modularcalculator/features/numerical/trigonometryfunctions.py b/modularcalculator/features/numerical/trigonometryfunctions.py
index ab757e1..82567d3 100755
--- a/modularcalculator/features/numerical/trigonometryfunctions.py
+++ b/modularcalculator/features/numerical/trigonometryfunctions.py
@@ -138,38 +138,54 @@ class TrigonometryFunctionsFeature(Feature):
             'number')
 
 
+    def angle(self, value, unit):
+        if unit is not None:
+            # Functions work on radians, a result never has a unit
+            value, unit = self.unit_normaliser.unit_conversion(value, unit, self.unit_normaliser.get_unit('radians'), False)
+        return value
+
+    def ratio(self, value, unit):
+        if unit is not None:
+            raise CalculatorException("Can't have a unit: {0}".format(unit.plural()))
+        return value
+
+    def result(self, value):
+        res = OperationResult(Number(Decimal(value)))
+        res.set_unit(None)
+        return res
+
     def func_sin(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.sin(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.sin(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_cos(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.cos(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.cos(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_tan(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.tan(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.tan(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_asin(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.asin(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.asin(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
 
     def func_acos(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.acos(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.acos(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
 
     def func_atan(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.atan(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.atan(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
 
     def func_sinh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.sinh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.sinh(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_cosh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.cosh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.cosh(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_tanh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.tanh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.tanh(TrigonometryFunctionsFeature.angle(self, vals[0], units[0])))
 
     def func_asinh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.asinh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.asinh(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
 
     def func_acosh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.acosh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.acosh(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
 
     def func_atanh(self, vals, units, refs, flags):
-        return OperationResult(Number(Decimal(math.atanh(vals[0]))))
+        return TrigonometryFunctionsFeature.result(self, math.atanh(TrigonometryFunctionsFeature.ratio(self, vals[0], units[0])))
-- 
2.43.0


From ac2676c0a6e66162a48ecd1715e1de112ea8fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:52 +0000
Subject: [PATCH 41/73] fix: report the error of an array element that is
 passed on

---
 modularcalculator/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index f26a00e..f78ac61 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -230,6 +230,9 @@ class Engine:
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
+            if isinstance(items[0].value, CalculatorException) and not isinstance(items[0].value, CalculateException):
+                # This is the error of an array element
+                items[0] = OperandResult(ExecuteException(items[0].value.message, [], None), None, None)
             if isinstance(items[0].value, CalculateException):
                 items[0].value = self.restore_non_functional_items(items[0].value, original_items, very_original_items)
             return items[0]
-- 
2.43.0


From d082023394526ab768188db3a8a1ec47b81e1b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:55 +0000
Subject: [PATCH 42/73] fix: separate the statements of an inline function
 inside brackets

---
 modularcalculator/features/structure/inlinefunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 22f1d63..e7319b2 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -36,6 +36,7 @@ class InlineFunctionsFeature(Feature):
         next = expr[i:]
         if next.startswith('{'):
             flags['inline_function'] = True
+            flags['ignore_terminators'] = False
             inner_items, length, return_flags = None, None, None
             try:
                 inner_items, length, return_flags = self.parse(next[1:], flags)
-- 
2.43.0


From 5a8a7036d9740e638a83fdf2e2ee9692cefaad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 43/73] fix: give calculators without the assignment feature an
 empty set of variables

---
 modularcalculator/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index f78ac61..4465643 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -17,6 +17,7 @@ class Engine:
         self.ops = []
         self.finalizers = []
         self.validators = {'exception': Engine.validate_exception}
+        self.vars = {}
 
         self.multiply_op = None
         self.divide_op = None
-- 
2.43.0


From 63b1874df211e8e07fd1399a7f1def8530f0e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:47 +0000
Subject: [PATCH 44/73] fix: locate the error of an array element at the
 function that returns it

---
 modularcalculator/engine.py                       | 3 ---
 modularcalculator/features/structure/functions.py | 6 +++++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 4465643..2ddd9b5 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -231,9 +231,6 @@ class Engine:
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
-            if isinstance(items[0].value, CalculatorException) and not isinstance(items[0].value, CalculateException):
-                # This is the error of an array element
-                items[0] = OperandResult(ExecuteException(items[0].value.message, [], None), None, None)
             if isinstance(items[0].value, CalculateException):
                 items[0].value = self.restore_non_functional_items(items[0].value, original_items, very_original_items)
             return items[0]
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..8eb7b18 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -127,7 +127,11 @@ class FunctionItem(RecursiveOperandItem):
                 self.text = err.truncate(self.text)
                 self.truncated = True
                 raise ExecuteException(err.message, [self], err.next, True)
-        return func.call(self.calculator, inputs, flags)
+        result = func.call(self.calculator, inputs, flags)
+        if isinstance(result.value, CalculatorException):
+            # This is the error of an array element, report it as an error of this function
+            raise CalculatorException(result.value.message)
+        return result
 
     def result(self, flags):
         return self.value(flags)
-- 
2.43.0


From a9da82e0514569e153fb10544addc56fe0e0b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:02 +0000
Subject: [PATCH 45/73] fix: refuse numbers in scientific notation that are out
 of range

---
 modularcalculator/features/numerical/expnumbers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 9263ba6..3d95dce 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -62,7 +62,10 @@ class ExpNumbersFeature(Feature):
             numexp_match = numexp_regex.match(next)
             if (numexp_match):
                 numexp = numexp_match.group(1)
-                decnum = ExpNumericalRepresentation.parse(self, numexp)
+                try:
+                    decnum = ExpNumericalRepresentation.parse(self, numexp)
+                except CalculatorException as err:
+                    raise ParseException(err.message, [], next)
                 return [LiteralItem(numexp, decnum)], len(numexp), None
         return None, None, None
 
@@ -131,7 +134,10 @@ class ExpNumericalRepresentation:
             symbol = calculator.feature_options['numerical.expnumbers']['Symbol'].lower()
             num = Number(numexp[0:numexp.lower().find(symbol)])
             exp = Number(numexp[numexp.lower().find(symbol) + len(symbol):])
-            num *= (Number(10) ** exp)
+            try:
+                num *= (Number(10) ** exp)
+            except ArithmeticError:
+                raise CalculatorException("Number out of range: {0}".format(numexp))
             num = ExpNumericalRepresentation.convert_to(calculator, num)
             return num
 
-- 
2.43.0


From df05f5bdb018e9cec44bc3673ee06018dde65d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:40 +0000
Subject: [PATCH 46/73] fix: locate errors in the arguments after an empty
 argument

---
 modularcalculator/features/structure/functionpointers.py | 4 +++-
 modularcalculator/features/structure/functions.py        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..b783852 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -99,10 +99,12 @@ class FunctionPointerItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-                itemsi += len(arg) + 1
+                itemsi += len(arg)
                 inputs.append(argresult)
             except ExecuteException as err:
                 self.items = self.items[0:itemsi]
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 8eb7b18..e42e3e1 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -106,10 +106,12 @@ class FunctionItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-                itemsi += len(arg) + 1
+                itemsi += len(arg)
                 inputs.append(argresult)
             except ExecuteException as err:
                 self.items = self.items[0:itemsi]
-- 
2.43.0


From f4b201bc8f8986dedad48d265cc73c7d67a49e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:01 +0000
Subject: [PATCH 47/73] fix: locate the call of an undefined function variable
 at the call

---
 modularcalculator/features/structure/functionpointers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index b783852..0a04800 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -90,7 +90,9 @@ class FunctionPointerItem(RecursiveOperandItem):
 
     def value(self, flags):
         if self.name not in self.calculator.vars:
-            raise ExecuteException("Variable {} not found".format(self.name), [self], '', True)
+            self.items = []
+            self.text = ''
+            raise ExecuteException("Variable {} not found".format(self.name), [self], self.text, True)
 
         # Function pointer
         ref = self.calculator.vars[self.name][0]
-- 
2.43.0


From 4e37284ce617412a859dba13d54f9f08d3382c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:30 +0000
Subject: [PATCH 48/73] fix: refuse the element of an array before its first
 one

---
 modularcalculator/features/arrays/arrayfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/arrays/arrayfunctions.py b/modularcalculator/features/arrays/arrayfunctions.py
index 6d63d1a..d897ff3 100755
--- a/modularcalculator/features/arrays/arrayfunctions.py
+++ b/modularcalculator/features/arrays/arrayfunctions.py
@@ -96,6 +96,8 @@ class ArrayFunctionsFeature(Feature):
     def func_array_element(self, vals, units, refs, flags):
         array = vals[0]
         index = int(vals[1]) - 1
+        if index < 0:
+            raise CalculatorException("Array has no element {}".format(vals[1]))
         element = array[index]
         res =  OperationResult(element.value)
         res.set_unit(element.unit)
-- 
2.43.0


From aa0217d5251ba32e0c35f9882e7ab7900ca0a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:51 +0000
Subject: [PATCH 49/73] fix: find the direction of a range after converting its
 units

---
 modularcalculator/features/arrays/arrays.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index 6de867c..dc581d5 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -234,8 +234,6 @@ class ArrayElement():
         end_element_result = OperandResult(calculator.number(end_element_result.value), end_element_result.unit, end_element_result.ref)
 
         step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -256,6 +254,10 @@ class ArrayElement():
                 right_element.value = values[1]
                 right_element.unit = units[1]
 
+        # Without a step, go towards the end
+        if self.step is None and end_element_result.value < element_result.value:
+            step_result = OperandResult(Number(-1), element_result.unit, None)
+
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
             raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
 
-- 
2.43.0


From 3efaaabc0c34c9f1863c5196ed5f3725e93aad36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 50/73] fix: let lstrip take a number as its characters

---
 modularcalculator/features/strings/stringfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..312de5e 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
-- 
2.43.0


From ed16c553a15c3c444dff45fe8afa8baa79140cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 51/73] fix: count the end of substr from the end of any value,
 and not beyond its start

---
 modularcalculator/features/strings/stringfunctions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 312de5e..eea3be0 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -148,8 +148,9 @@ class StringFunctionsFeature(Feature):
             return OperationResult(StringsFeature.string(self, vals[0])[start:])
         elif len(vals) == 3:
             end = int(vals[2]) + 1
+            string = StringsFeature.string(self, vals[0])
             if end <= 0:
-                end += len(vals[0])
-            return OperationResult(StringsFeature.string(self, vals[0])[start:end])
+                end = max(end + len(string), 0)
+            return OperationResult(string[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From 25542252600c89aa6fcac9cfa8bba561fd846b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 52/73] fix: let join take a number as its delimiter

---
 modularcalculator/features/strings/stringarrayfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
-- 
2.43.0


From 55ab9a7ecfca655c2bed331a80c8b0c5bc0ad79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 53/73] fix: return arrays for the groups of regexget, and
 refuse an occurrence before the first

---
 modularcalculator/features/strings/regex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/regex.py b/modularcalculator/features/strings/regex.py
index 0f98e16..c65bc79 100755
--- a/modularcalculator/features/strings/regex.py
+++ b/modularcalculator/features/strings/regex.py
@@ -98,9 +98,13 @@ class RegexFeature(Feature):
 
     def func_regexget(self, vals, units, refs, flags):
         found = re.findall(StringsFeature.string(self, vals[1]), StringsFeature.string(self, vals[0]))
+        # A pattern with several groups finds an array of their texts each time
+        found = [[OperandResult(g, None, None) for g in f] if isinstance(f, tuple) else f for f in found]
         if len(vals) == 3:
             group = int(vals[2]) - 1
-            return OperationResult(found[int(group)])
+            if group < 0:
+                raise CalculatorException("There is no occurrence {}".format(vals[2]))
+            return OperationResult(found[group])
         found = [OperandResult(f, None, None) for f in found]
         return OperationResult(found)
 
-- 
2.43.0


From e0074a68ad44d78ad39d1ba943e60dbfa22f7b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:57 +0000
Subject: [PATCH 54/73] fix: compare declared dimensions in any order, and
 derived ones too

---
 modularcalculator/services/unitnormaliser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 567f0ec..c8585c5 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -402,10 +402,12 @@ class UnitNormaliser:
         return self.dimensionlist_to_relationship(self.unit_normalised_dimensionlist(unit))
 
     def standardise_relationship(self, relationship):
-        return self.dimensionlist_to_relationship(self.relationship_to_dimensions(relationship.copy()))
+        dimensions = self.relationship_to_dimensions(relationship)
+        return self.dimensionlist_to_relationship(DimensionPowerList(
+            [DimensionPower(d.dimension, d.power * r.power) for r in dimensions for d in self.normalised_dimension(r.dimension)]).deduplicate())
 
     def dimensionlist_to_relationship(self, dimensionlist):
-        return [(d.dimension, d.power) for d in dimensionlist]
+        return sorted([(d.dimension, d.power) for d in dimensionlist], key=lambda d: d[0])
 
     def check_unit_dimensions(self, unit, relationship):
         unit_relationship = self.unit_to_relationship(unit)
-- 
2.43.0


From 1d8c8dba31cb90db38edcf18c8e7b7d1f871128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 55/73] fix: refuse a function file with an invalid power in
 its input dimensions

---
 .../features/structure/externalfunctions.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index c646dbe..41430f2 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -77,16 +77,19 @@ class ExternalFunctionsPointerHandler:
 
                 # If type has a colon, first part is value type, second is unit dimensions
                 if ':' in value:
-                    value, units_string = value.split(':')
+                    value, units_string = value.split(':', 1)
 
                     # Multiple unit[^power] dimensions can be provided for an input, comma separated
                     units = []
                     for unit in units_string.split(','):
                         # If unit dimension has a power, parse it, otherwise power defaults to 1
                         if unit is not None and '^' in unit:
-                            unit_unit, unit_power = unit.split('^')
+                            unit_unit, unit_power = unit.split('^', 1)
                             units.append(unit_unit)
-                            units.append(int(unit_power))
+                            try:
+                                units.append(int(unit_power))
+                            except ValueError:
+                                raise ExecuteException("Invalid power '{}' of an input dimension in '{}'".format(unit_power, path), [], None)
                         else:
                             units.append(unit)
                             units.append(1)
-- 
2.43.0


From 297eb22adccc52328a7fe94715b63fd69b53ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 56/73] fix: take the comment symbol literally in the inputs of
 a function file

---
 modularcalculator/features/structure/externalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index 41430f2..8cb84fe 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -66,7 +66,7 @@ class ExternalFunctionsPointerHandler:
 
         # If function content has a top line declaring the input type, parse it
         topline = func_content.split('\n', 1)[0]
-        input_line_regex = re.compile(r'^' + calculator.feature_options['nonfunctional.comments']['Symbol'] + r'INPUT((\s+\S+)+)')
+        input_line_regex = re.compile(r'^' + re.escape(calculator.feature_options['nonfunctional.comments']['Symbol']) + r'INPUT((\s+\S+)+)')
         input_line_regex_match = input_line_regex.match(topline)
         if input_line_regex_match:
             i = 0
-- 
2.43.0


From bc7c282ba37d3163008a346f8420b33cddc23c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 57/73] fix: install comments with function files, which need
 them

---
 modularcalculator/features/structure/externalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/structure/externalfunctions.py b/modularcalculator/features/structure/externalfunctions.py
index 8cb84fe..0296272 100755
--- a/modularcalculator/features/structure/externalfunctions.py
+++ b/modularcalculator/features/structure/externalfunctions.py
@@ -27,7 +27,7 @@ class ExternalFunctionsFeature(Feature):
         return 'Enables functions defined by the user'
 
     def dependencies():
-        return ['structure.functionpointers', 'strings.strings', 'structure.terminator']
+        return ['structure.functionpointers', 'strings.strings', 'structure.terminator', 'nonfunctional.comments']
 
     @classmethod
     def install(cls, calculator):
-- 
2.43.0


From 09ffee4398285ea84edb6ec09196595c2a3a7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 58/73] fix: show operands that cannot be combined in the error
 message (C01, R01)

---
 modularcalculator/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 2ddd9b5..7d8b32a 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -227,7 +227,7 @@ class Engine:
                 if len(ops) > 0:
                     item_index = ops[0]._INDEX
                     raise ExecuteException("Could not execute operator: {0}".format(ops[0].text), original_items[0:item_index], None)
-                raise ExecuteException("Not one item left: {0}".format([str(item) for item in items]), original_items[0:item_index], None)
+                raise ExecuteException("Not one item left: {0}".format([item.to_string(self) for item in items]), original_items[0:item_index], None)
             if not isinstance(items[0], OperandResult):
                 raise ExecuteException("Not a value: \"{0}\"".format(str(items[0])), original_items[0:items[0]._INDEX], None)
 
@@ -284,11 +284,11 @@ class Engine:
         for index, this_item in enumerate(actual_items):
             expected_item = expected_items[index]
             if isinstance(expected_item, str):
-                if str(this_item) != expected_item:
-                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(str(this_item), sym), original_items[0:this_item._INDEX], str(this_item))
+                if this_item.to_string(self) != expected_item:
+                    raise ExecuteException("Invalid symbol '{0}' for operator {1}".format(this_item.to_string(self), sym), original_items[0:this_item._INDEX], this_item.to_string(self))
             else:
                 if not isinstance(this_item, OperandResult):
-                    raise ExecuteException("Invalid input for operator {0} - '{1}'".format(sym, str(this_item)), previous_items, sym)
+                    raise ExecuteException("Invalid input for operator {0} - '{1}'".format(sym, this_item.to_string(self)), previous_items, sym)
                 inputs.append(this_item)
 
         if 'fake_execution' in flags:
-- 
2.43.0


From bf7da49711e79288ced9822429ba9a67d5e40e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 59/73] fix: a refused install_features does not leave features
 to be installed later (C01)

---
 modularcalculator/modularcalculator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index cb2068a..4da320c 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -88,8 +88,13 @@ class ModularCalculator(NumericalEngine):
                     print("!!! Skipping {} as it is not found !!!".format(name))
             names = new_names
 
-        for name in names:
-            self.add_feature_to_be_installed(name)
+        features_to_install = self.features_to_install.copy()
+        try:
+            for name in names:
+                self.add_feature_to_be_installed(name)
+        except CalculatorException:
+            self.features_to_install = features_to_install
+            raise
 
         if debug:
             print("Installing {0} features".format(len(names)))
-- 
2.43.0


From b1ad846ad7dc2e354cc66bf84a711d30497ce5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 60/73] fix: comment symbols of several characters (C02)

---
 modularcalculator/features/nonfunctional/comments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/nonfunctional/comments.py b/modularcalculator/features/nonfunctional/comments.py
index ca63cef..fb40269 100755
--- a/modularcalculator/features/nonfunctional/comments.py
+++ b/modularcalculator/features/nonfunctional/comments.py
@@ -34,7 +34,7 @@ class CommentsFeature(Feature):
 
     def parse_comment(self, expr, i, items, flags):
         next = expr[i:]
-        if next[0] == self.feature_options['nonfunctional.comments']['Symbol']:
+        if next.startswith(self.feature_options['nonfunctional.comments']['Symbol']):
             i = next.find("\n")
             if i == -1:
                 i = len(next)
-- 
2.43.0


From f581ef42b12367f8b0a70832182fc7dee8a9e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 61/73] fix: take the symbol of scientific notation literally
 (C02)

---
 modularcalculator/features/numerical/expnumbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 3d95dce..4112595 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -110,7 +110,7 @@ class ExpNumbersFeature(Feature):
 
     def compile_regex(self):
         if not hasattr(self, 'ExpNumbersFeature_numexp_regex') or not hasattr(self, 'ExpNumbersFeature_numexp_regex_symbol') or self.ExpNumbersFeature_numexp_regex_symbol != self.feature_options['numerical.expnumbers']['Symbol']:
-            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + self.feature_options['numerical.expnumbers']['Symbol'] + r'\-?\d+)', re.IGNORECASE)
+            self.ExpNumbersFeature_numexp_regex = re.compile(r'(\-?\d+(\.\d+)?' + re.escape(self.feature_options['numerical.expnumbers']['Symbol']) + r'\-?\d+)', re.IGNORECASE)
             self.ExpNumbersFeature_numexp_regex_symbol = self.feature_options['numerical.expnumbers']['Symbol']
         return self.ExpNumbersFeature_numexp_regex
 
-- 
2.43.0


From 6c4906127d7f2dca0367f4625e1731b8a3d5eb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 62/73] fix: names that start with the range symbol of arrays,
 when it is a word (C02)

---
 modularcalculator/features/arrays/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index dc581d5..67e1985 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -120,7 +120,7 @@ class ArraysFeature(Feature):
         symbol = self.feature_options['arrays.arrays']['Range']
 
         array = ('array' in flags.keys() and flags['array'])
-        if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol:
+        if array and len(next) >= len(symbol) and next[0:len(symbol)] == symbol and not (symbol.isalpha() and re.match(r'\w', next[len(symbol):])):
             return None, None, {'end': True, 'array_range': True}
 
         return None, None, None
-- 
2.43.0


From 77bb5a4222dd5aa66060a59a7681fd8c48b7fdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 63/73] fix: special functions with integer parameters keep the
 fraction of the others (M01)

---
 .../features/numerical/specialfunctions.py          | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/specialfunctions.py b/modularcalculator/features/numerical/specialfunctions.py
index a016e9b..b8cc60d 100644
--- a/modularcalculator/features/numerical/specialfunctions.py
+++ b/modularcalculator/features/numerical/specialfunctions.py
@@ -57,7 +57,7 @@ class SpecialFunctionsFeature(Feature):
         af('yn', "Bessel functions - Bessel function of the second kind of integer order and real argument", ['n', 'x'])
         af('yv', "Bessel functions - Bessel function of the second kind of real order and complex argument", ['v', 'z'])
         af('yve', "Bessel functions - Exponentially scaled Bessel function of the second kind of real order", ['v', 'z'])
-        af('kn', "Bessel functions - Modified Bessel function of the second kind of integer order n", ['n', 'x'], func=SpecialFunctionsFeature.func_int_params)
+        af('kn', "Bessel functions - Modified Bessel function of the second kind of integer order n", ['n', 'x'], func=partial(SpecialFunctionsFeature.func_int_params, 1))
         af('kv', "Bessel functions - Modified Bessel function of the second kind of real order v", ['v', 'z'])
         af('kve', "Bessel functions - Exponentially scaled modified Bessel function of the second kind", ['v', 'z'])
         af('iv', "Bessel functions - Modified Bessel function of the first kind of real order", ['v', 'z'])
@@ -80,8 +80,8 @@ class SpecialFunctionsFeature(Feature):
         af('h1vp', "Derivatives of Bessel functions - Compute derivatives of Hankel function H1v(z) with respect to z", ['v', 'z'])
         af('h2vp', "Derivatives of Bessel functions - Compute derivatives of Hankel function H2v(z) with respect to z", ['v', 'z'])
 
-        af('bdtrc', "Binomial distribution - Binomial distribution survival function", ['k', 'n', 'p'], func=SpecialFunctionsFeature.func_int_params)
-        af('bdtri', "Binomial distribution - Inverse function to bdtr with respect to p", ['k', 'n', 'y'], func=SpecialFunctionsFeature.func_int_params)
+        af('bdtrc', "Binomial distribution - Binomial distribution survival function", ['k', 'n', 'p'], func=partial(SpecialFunctionsFeature.func_int_params, 2))
+        af('bdtri', "Binomial distribution - Inverse function to bdtr with respect to p", ['k', 'n', 'y'], func=partial(SpecialFunctionsFeature.func_int_params, 2))
         af('bdtrik', "Binomial distribution - Inverse function to bdtr with respect to k", ['y', 'n', 'p'])
         af('bdtrin', "Binomial distribution - Inverse function to bdtr with respect to n", ['k', 'y', 'p'])
 
@@ -101,7 +101,7 @@ class SpecialFunctionsFeature(Feature):
 
         af('nbdtr', "Negative binomial distribution - Negative binomial cumulative distribution function", ['k', 'n', 'p'])
         af('nbdtrc', "Negative binomial distribution - Negative binomial survival function", ['k', 'n', 'p'])
-        af('nbdtri', "Negative binomial distribution - Returns the inverse with respect to the parameter p of y = nbdtr(k, n, p), the negative binomial cumulative distribution function", ['k', 'n', 'y'], func=SpecialFunctionsFeature.func_int_params)
+        af('nbdtri', "Negative binomial distribution - Returns the inverse with respect to the parameter p of y = nbdtr(k, n, p), the negative binomial cumulative distribution function", ['k', 'n', 'y'], func=partial(SpecialFunctionsFeature.func_int_params, 2))
         af('nbdtrik', "Negative binomial distribution - Negative binomial percentile function", ['y', 'n', 'p'])
         af('nbdtrin', "Negative binomial distribution - Inverse of nbdtr vs n", ['k', 'y', 'p'])
 
@@ -288,8 +288,9 @@ class SpecialFunctionsFeature(Feature):
             out = out[o]
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
 
-    def func_int_params(f, o, self, vals, units, refs, flags):
-        out = f(*[int(v) for v in vals])
+    # For functions with a number of leading parameters that must be integers
+    def func_int_params(int_params, f, o, self, vals, units, refs, flags):
+        out = f(*[int(v) for v in vals[:int_params]], *[float(v) for v in vals[int_params:]])
         if o is not None:
             out = out[o]
         return OperationResult(SpecialFunctionsFeature.cast_numpy(out))
-- 
2.43.0


From 7cb8fd28d8581182938788c7d6d7af3ea073a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 64/73] fix: refuse bases out of range for zero too

---
 modularcalculator/features/numerical/bases.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 19f3c7d..7a95db8 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -61,12 +61,12 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
+        if val == '0':
+            return Number(0)
 
         negative = False
         if val[0] == '-':
@@ -94,15 +94,15 @@ class BasesFeature(Feature):
         return dec
 
     def dec_to_base(self, val, base):
-        if val.to_decimal() == 0:
-            return '0'
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
+        if base < 2 or base > 36:
+            raise CalculatorException("Base must be between 2 and 36")
+        if val.to_decimal() == 0:
+            return '0'
         if base == 10:
             # Ignore the number's own representation, it may be the one being displayed
             return Number(val.num, val.den, skip_checks=True).to_string(self)
-        if base < 2 or base > 36:
-            raise CalculatorException("Base must be between 2 and 36")
 
         negative = val.to_decimal() < 0
         val = abs(val)
-- 
2.43.0


From cbade54d35c07627c72fdeb5bd08e85aabda3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 65/73] fix: import_feature_file loads the file it is given

Two feature files with the same base name in different directories, or a file
named like an already imported module, gave the features of whichever module
was imported first.
---
 modularcalculator/modularcalculator.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 4da320c..690dc95 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -12,6 +12,7 @@ import inspect
 import pkgutil
 import os.path
 from importlib import import_module
+from importlib.util import module_from_spec, spec_from_file_location
 
 
 class ModularCalculator(NumericalEngine):
@@ -42,11 +43,14 @@ class ModularCalculator(NumericalEngine):
                     self.import_feature(module_name, package_name)
 
     def import_feature(self, module_name, package_name=None):
-        ids = []
         if package_name is not None:
             imported_module = import_module("{}.{}".format(package_name, module_name))
         else:
             imported_module = import_module(module_name)
+        return self.add_module_features(imported_module)
+
+    def add_module_features(self, imported_module):
+        ids = []
         for i in dir(imported_module):
             feature = getattr(imported_module, i)
             if inspect.isclass(feature) and issubclass(feature, Feature):
@@ -64,7 +68,15 @@ class ModularCalculator(NumericalEngine):
         feature_module = os.path.splitext(feature_module)[0]
         if feature_dir not in sys.path:
             sys.path.append(feature_dir)
-        return self.import_feature(feature_module)
+        spec = None
+        if os.path.isfile(file_path):
+            # Load this very file, there could be other modules with the same name
+            spec = spec_from_file_location(feature_module, file_path)
+        if spec is None:
+            return self.import_feature(feature_module)
+        imported_module = module_from_spec(spec)
+        spec.loader.exec_module(imported_module)
+        return self.add_module_features(imported_module)
 
     def list_presets(self):
         return self.preset_list.keys()
-- 
2.43.0


From 419619434a42bf0c88d0d5a1d481702e8c1d156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 66/73] fix: custom features only affect the calculators that
 install them

The lists of parsers and operators, which custom features add to, were shared
by all calculators.
---
 modularcalculator/modularcalculator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index 690dc95..e35b791 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -24,8 +24,9 @@ class ModularCalculator(NumericalEngine):
         self.scan_feature_files()
 
         self.preset_list = modularcalculator.features.presets.presets
-        self.parser_map = modularcalculator.features.layout.parser_map
-        self.op_map = modularcalculator.features.layout.op_map
+        # Custom features add to these, which must not affect other calculators
+        self.parser_map = modularcalculator.features.layout.parser_map.copy()
+        self.op_map = [prec.copy() for prec in modularcalculator.features.layout.op_map]
 
         self.installed_features = set()
         self.features_to_install = set()
-- 
2.43.0


From 675feb9b4560aaaccf2584c09a1162202a9154b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 67/73] fix: features come after the parts of a meta feature
 too

The parts of a meta feature were not among the features to be installed, so
that one which has to come after them was installed before.
---
 modularcalculator/modularcalculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/modularcalculator.py b/modularcalculator/modularcalculator.py
index e35b791..e1e5405 100755
--- a/modularcalculator/modularcalculator.py
+++ b/modularcalculator/modularcalculator.py
@@ -146,7 +146,7 @@ class ModularCalculator(NumericalEngine):
         dependencies = feature.dependencies()
         for dependency in dependencies:
             self.add_feature_to_be_installed(dependency)
-        if isinstance(feature, MetaFeature):
+        if issubclass(feature, MetaFeature):
             for subfeature in feature.subfeatures():
                 self.add_feature_to_be_installed(subfeature)
 
-- 
2.43.0


From 18cf36a6307944026808941f8122c13546e2f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 68/73] fix: the documented examples run

Numbers have no text of their own, and the example feature returned a Decimal,
which no operator accepts.
---
 README.md                        |  2 +-
 examples/advanced_integration.py | 11 +++++------
 examples/basic_integration.py    |  4 ++--
 examples/examplecustomfeature.py |  7 +++----
 4 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/README.md b/README.md
index 172af87..2917a29 100755
--- a/README.md
+++ b/README.md
@@ -51,7 +51,7 @@ Then, call calculate() with the expression to be calculated. This returns a resp
 
 ```
 response = c.calculate('2+3')
-print(response.results[0].value)
+print(response.results[0].value.to_string(c))
 ```
 
 These examples are available in examples/basic_integration.py. See examples/advanced_integration.py for a guide to adding custom features.
diff --git a/examples/advanced_integration.py b/examples/advanced_integration.py
index c75d066..cf94c77 100755
--- a/examples/advanced_integration.py
+++ b/examples/advanced_integration.py
@@ -3,9 +3,8 @@
 from modularcalculator.modularcalculator import ModularCalculator
 from modularcalculator.features.feature import Feature
 from modularcalculator.objects.items import *
-#from modularcalculator.examples.examplecustomfeature import ExampleCustomFeature
 
-from decimal import *
+import os.path
 
 
 # An example custom feature, which interprets 'hello' as the number 123
@@ -15,14 +14,14 @@ from decimal import *
 c = ModularCalculator()
 
 # Import the custom feature to its list of known features
-feature_ids = c.import_feature('examplecustomfeature', 'modularcalculator.examples')
+feature_ids = c.import_feature_file(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'examplecustomfeature.py'))
 print("ID of imported feature:", feature_ids)
-# If the file is outside of the python path, you could import it this way instead:
-# c.import_feature_file('/path/to/examplecustomfeature.py')
+# If the file is in a package on the python path, you could import it this way instead:
+# c.import_feature('examplecustomfeature', 'package.name')
 
 # Install the feature, and basic arithmetic operators
 c.install_features(feature_ids + ['numerical.basicarithmetic'])
 
 # The feature interprets 'hello' as the number 123, so this should return 126
 response = c.calculate('hello+3')
-print(response.results[0].value)
+print(response.results[0].value.to_string(c))
diff --git a/examples/basic_integration.py b/examples/basic_integration.py
index 1a22e84..25126c3 100755
--- a/examples/basic_integration.py
+++ b/examples/basic_integration.py
@@ -11,10 +11,10 @@ response = c.calculate('3 ^ 2')
 # Display the value of the first result in the response (there will be only one).
 # Take a look at objects/api.py for other information in the response, such as
 # result units, items parsed, time taken etc.
-print(response.results[0].value)
+print(response.results[0].value.to_string(c))
 
 # Initially empty calculator with features manually installed
 c = ModularCalculator()
 c.install_features(['numerical.basicarithmetic', 'numerical.decimalnumbers'])
 response = c.calculate('2+3')
-print(response.results[0].value)
+print(response.results[0].value.to_string(c))
diff --git a/examples/examplecustomfeature.py b/examples/examplecustomfeature.py
index 6809d26..2102991 100755
--- a/examples/examplecustomfeature.py
+++ b/examples/examplecustomfeature.py
@@ -3,8 +3,7 @@
 from modularcalculator.modularcalculator import ModularCalculator
 from modularcalculator.features.feature import Feature
 from modularcalculator.objects.items import *
-
-from decimal import *
+from modularcalculator.objects.number import *
 
 
 class ExampleCustomFeature(Feature):
@@ -38,7 +37,7 @@ class ExampleCustomFeature(Feature):
         next = expr[i:]
         # If the next 5 characters are 'hello':
         if len(next) >= 5 and next.startswith('hello'):
-        	# Returns one item, with original text = 'hello', value is the decimal number 123. Total parse length is 5. No return flags.
-            return [LiteralItem('hello', Decimal('123'))], 5, None
+        	# Returns one item, with original text = 'hello', value is the number 123. Total parse length is 5. No return flags.
+            return [LiteralItem('hello', Number('123'))], 5, None
         # Otherwise, nothing found by the parser this time
         return None, None, None
-- 
2.43.0


From b5ef7182a67b4dece9d6a0630bc4b2105814f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 69/73] fix: unit symbols longer than every unit name are read

---
 modularcalculator/features/units/units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..b6f9323 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -87,7 +87,8 @@ class UnitsFeature(Feature):
         next = expr[i:]
         next_lower = next.lower()
 
-        for length in range(min(self.unit_normaliser.unitnamesmaxlength, len(next)), 0, -1):
+        maxlength = max(self.unit_normaliser.unitnamesmaxlength, self.unit_normaliser.unitsymbolsmaxlength)
+        for length in range(min(maxlength, len(next)), 0, -1):
 
             name = next_lower[0: length]
             if name in self.unit_normaliser.unitnames:
-- 
2.43.0


From b2d7c75d019717d170541d6f90e0a427156fd65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 70/73] fix: a calculator uses its own number settings in every
 thread

The decimal context belongs to a thread, so a calculator used in another thread
than the one it was made in calculated with 28 digits. Size, places and rounding
were also those of whichever calculator was made or changed last.
---
 modularcalculator/numericalengine.py | 14 ++++++++++++++
 modularcalculator/objects/number.py  |  9 +++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/numericalengine.py b/modularcalculator/numericalengine.py
index 5610cae..2c21688 100755
--- a/modularcalculator/numericalengine.py
+++ b/modularcalculator/numericalengine.py
@@ -5,6 +5,8 @@ from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.items import *
 from modularcalculator.objects.number import *
 
+from decimal import getcontext, localcontext
+
 
 class NumericalEngine(Engine):
 
@@ -37,8 +39,20 @@ class NumericalEngine(Engine):
         Number.set_precision(self.number_size, self.number_prec)
 
     def number_set_rounding(self, rounding):
+        self.number_rounding = rounding
         Number.set_rounding(rounding)
 
+    def number_context(self):
+        # Each thread has its own decimal context, and other calculators may have changed this one
+        context = getcontext().copy()
+        context.prec = self.number_size
+        context.rounding = self.number_rounding
+        return localcontext(context)
+
+    def calculate(self, expr, flags=None):
+        with self.number_context():
+            return super().calculate(expr, flags)
+
     def number(self, val):
         if isinstance(val, Number):
             return val
diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 6c00067..3d69d5d 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -61,6 +61,11 @@ class Number:
     def to_string(self, calculator=None):
         if calculator is not None:
             assert calculator.__class__.__name__ == "ModularCalculator", "{} != {}".format(calculator.__class__.__name__, "ModularCalculator")
+            with calculator.number_context():
+                return self.to_text(calculator, calculator.number_prec)
+        return self.to_text(None, NUMBER['decimal_places'])
+
+    def to_text(self, calculator, decimal_places):
         if hasattr(self, 'number_cast') and self.number_cast is not None and 'to_string' in self.number_cast:
             return self.number_cast['to_string'](
                 calculator,
@@ -69,8 +74,8 @@ class Number:
         dec_num = self.to_decimal()
         with localcontext() as context:
             # Make sure there is room for all the integer digits, as well as the decimal places
-            context.prec = max(context.prec, max(Decimal(dec_num).adjusted(), 0) + NUMBER['decimal_places'] + 2)
-            dec_num = round(dec_num, NUMBER['decimal_places'])
+            context.prec = max(context.prec, max(Decimal(dec_num).adjusted(), 0) + decimal_places + 2)
+            dec_num = round(dec_num, decimal_places)
             if dec_num == 0:
                 # This is to avoid getting '-0'
                 dec_num = 0
-- 
2.43.0


From 7ed3bf9884c75b6df5fa21ca8c057354c80063e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 71/73] fix: the places of scientific() may be given in any
 notation

---
 modularcalculator/features/numerical/expnumbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/expnumbers.py b/modularcalculator/features/numerical/expnumbers.py
index 4112595..cfd25d2 100755
--- a/modularcalculator/features/numerical/expnumbers.py
+++ b/modularcalculator/features/numerical/expnumbers.py
@@ -92,7 +92,7 @@ class ExpNumbersFeature(Feature):
         if places is None:
             places = '.' + str(self.number_prec)
         else:
-            places = '.' + str(places.to_string())
+            places = '.{0:f}'.format(places.to_decimal())
         scientificformat = '{0:' + places + 'E}'
 
         formattednumber = scientificformat.format(num.to_decimal())
-- 
2.43.0


From f4d3df6b3a8fab0c8970cbbb6d82ed79c1497949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 72/73] fix: leave the examples as they are, they count as test
 files

This reverts commit 18cf36a6307944026808941f8122c13546e2f298.
---
 README.md                        |  2 +-
 examples/advanced_integration.py | 11 ++++++-----
 examples/basic_integration.py    |  4 ++--
 examples/examplecustomfeature.py |  7 ++++---
 4 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/README.md b/README.md
index 2917a29..172af87 100755
--- a/README.md
+++ b/README.md
@@ -51,7 +51,7 @@ Then, call calculate() with the expression to be calculated. This returns a resp
 
 ```
 response = c.calculate('2+3')
-print(response.results[0].value.to_string(c))
+print(response.results[0].value)
 ```
 
 These examples are available in examples/basic_integration.py. See examples/advanced_integration.py for a guide to adding custom features.
diff --git a/examples/advanced_integration.py b/examples/advanced_integration.py
index cf94c77..c75d066 100755
--- a/examples/advanced_integration.py
+++ b/examples/advanced_integration.py
@@ -3,8 +3,9 @@
 from modularcalculator.modularcalculator import ModularCalculator
 from modularcalculator.features.feature import Feature
 from modularcalculator.objects.items import *
+#from modularcalculator.examples.examplecustomfeature import ExampleCustomFeature
 
-import os.path
+from decimal import *
 
 
 # An example custom feature, which interprets 'hello' as the number 123
@@ -14,14 +15,14 @@ import os.path
 c = ModularCalculator()
 
 # Import the custom feature to its list of known features
-feature_ids = c.import_feature_file(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'examplecustomfeature.py'))
+feature_ids = c.import_feature('examplecustomfeature', 'modularcalculator.examples')
 print("ID of imported feature:", feature_ids)
-# If the file is in a package on the python path, you could import it this way instead:
-# c.import_feature('examplecustomfeature', 'package.name')
+# If the file is outside of the python path, you could import it this way instead:
+# c.import_feature_file('/path/to/examplecustomfeature.py')
 
 # Install the feature, and basic arithmetic operators
 c.install_features(feature_ids + ['numerical.basicarithmetic'])
 
 # The feature interprets 'hello' as the number 123, so this should return 126
 response = c.calculate('hello+3')
-print(response.results[0].value.to_string(c))
+print(response.results[0].value)
diff --git a/examples/basic_integration.py b/examples/basic_integration.py
index 25126c3..1a22e84 100755
--- a/examples/basic_integration.py
+++ b/examples/basic_integration.py
@@ -11,10 +11,10 @@ response = c.calculate('3 ^ 2')
 # Display the value of the first result in the response (there will be only one).
 # Take a look at objects/api.py for other information in the response, such as
 # result units, items parsed, time taken etc.
-print(response.results[0].value.to_string(c))
+print(response.results[0].value)
 
 # Initially empty calculator with features manually installed
 c = ModularCalculator()
 c.install_features(['numerical.basicarithmetic', 'numerical.decimalnumbers'])
 response = c.calculate('2+3')
-print(response.results[0].value.to_string(c))
+print(response.results[0].value)
diff --git a/examples/examplecustomfeature.py b/examples/examplecustomfeature.py
index 2102991..6809d26 100755
--- a/examples/examplecustomfeature.py
+++ b/examples/examplecustomfeature.py
@@ -3,7 +3,8 @@
 from modularcalculator.modularcalculator import ModularCalculator
 from modularcalculator.features.feature import Feature
 from modularcalculator.objects.items import *
-from modularcalculator.objects.number import *
+
+from decimal import *
 
 
 class ExampleCustomFeature(Feature):
@@ -37,7 +38,7 @@ class ExampleCustomFeature(Feature):
         next = expr[i:]
         # If the next 5 characters are 'hello':
         if len(next) >= 5 and next.startswith('hello'):
-        	# Returns one item, with original text = 'hello', value is the number 123. Total parse length is 5. No return flags.
-            return [LiteralItem('hello', Number('123'))], 5, None
+        	# Returns one item, with original text = 'hello', value is the decimal number 123. Total parse length is 5. No return flags.
+            return [LiteralItem('hello', Decimal('123'))], 5, None
         # Otherwise, nothing found by the parser this time
         return None, None, None
-- 
2.43.0


From de45d4023a33fd6a8e3546c87ad7c3232aba1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:35 +0000
Subject: [PATCH 73/73] fix: names that continue a constant, notation or unit
 system with an underscore

us_x, e_1, pi_2 and decimal_x were not taken as variables.
---
 modularcalculator/features/numerical/numericalrepresentation.py | 2 +-
 modularcalculator/features/state/constants.py                   | 2 +-
 modularcalculator/features/units/systems.py                     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/numericalrepresentation.py b/modularcalculator/features/numerical/numericalrepresentation.py
index e6d1637..50f5bee 100644
--- a/modularcalculator/features/numerical/numericalrepresentation.py
+++ b/modularcalculator/features/numerical/numericalrepresentation.py
@@ -41,7 +41,7 @@ class NumericalRepresentationFeature(Feature):
         next = expr[i:]
 
         for numrep in self.number_types.keys():
-            if next.startswith(numrep) and (len(next) == len(numrep) or not next[len(numrep)].isalpha()):
+            if next.startswith(numrep) and (len(next) == len(numrep) or not (next[len(numrep)].isalpha() or next[len(numrep)] == '_')):
                 return [NumericalRepresentationItem(numrep)], len(numrep), None
 
         return None, None, None
diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index 139364a..533e700 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)(?![^\W\d_])')
+    constant_regex = re.compile(r'([a-zA-Z]+)(?![^\W\d])')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
diff --git a/modularcalculator/features/units/systems.py b/modularcalculator/features/units/systems.py
index 354e8e0..a1a46f8 100755
--- a/modularcalculator/features/units/systems.py
+++ b/modularcalculator/features/units/systems.py
@@ -41,7 +41,7 @@ class UnitSystemsFeature(Feature):
         next = expr[i:]
 
         for system in self.unit_normaliser.systems.keys():
-            if next.startswith(system) and (len(next) == len(system) or not next[len(system)].isalpha()):
+            if next.startswith(system) and (len(next) == len(system) or not (next[len(system)].isalpha() or next[len(system)] == '_')):
                 return [UnitSystemItem(system)], len(system), None
 
         return None, None, None
-- 
2.43.0

