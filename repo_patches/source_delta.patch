From ab3125c8eafe95135aa7744d6e9fcbd3e2232f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 01/21] fix: evaluate chained - and / in retrieval keys left to
 right

'a - b - c' was parsed as a - (b - c) and 'a / b / c' as a / (b / c).
A parenthesised key with surrounding spaces returned None.
---
 NRWAL/handlers/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..5348b21 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -154,7 +154,7 @@ class AbstractGroup(ABC):
         op_map['*'] = operator.mul
         op_map['/'] = operator.truediv
         op_map['^'] = operator.pow
-        key = key.replace('**', '^')
+        key = key.replace('**', '^').strip()
 
         if any(c in key for c in ('[', ']', '{', '}')):
             msg = ('Cannot parse EquationGroup key with square or curly '
@@ -177,6 +177,9 @@ class AbstractGroup(ABC):
         for op_str, op_fun in op_map.items():
             if op_str in key:
                 split_keys = key.partition(op_str)
+                if op_str in ('-', '/'):
+                    # left-associative: the last operator is applied last
+                    split_keys = key.rpartition(op_str)
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-- 
2.43.0


From b7dde148236d14c37a7a9ea57e186337d93a7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 02/21] fix: evaluate chained - and / in config expressions
 left to right

'a - b - c' was parsed as a - (b - c), 'a / b / c' as a / (b / c) and
'a * -b - c' as a * (-b - c), silently giving wrong values.
---
 NRWAL/handlers/config.py | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..77e7a52 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -618,44 +618,36 @@ class NrwalConfig:
         op_map['^'] = operator.pow
 
         out = None
-        expr = expression.replace('**', '^')
+        expr = expression.replace('**', '^').strip()
         for ops, fun in op_map.items():
             if ops in expr:
                 # need to break look on the first found operator because
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
 
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
+                iops = [i for i, c in enumerate(expr) if c == ops]
+                if ops == '-':
+                    # a minus sign with nothing or another operator on its
+                    # left (e.g. -var or *-var) is not a subtraction
+                    iops = [i for i in iops if expr[:i].strip()
+                            and expr[:i].strip()[-1] not in op_map]
 
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
+                if not iops and expr[0] != ops:
                     # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
                     pass
 
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
+                elif not iops:
                     # ignore leading minus sign (negative number)
                     out = cls._parse_expression_part(expr[1:], config, eqn_dir,
                                                      gvars)
                     out = Equation(-1) * out
                     break
 
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
-
                 else:
-                    # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
+                    # normal operation on two numbers / variables, split on
+                    # the last operator if it is left-associative
+                    iop = iops[-1] if ops in ('-', '/') else iops[0]
+                    v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
                     out1 = cls._parse_expression_part(v1, config, eqn_dir,
                                                       gvars)
                     out2 = cls._parse_expression_part(v2, config, eqn_dir,
-- 
2.43.0


From a1790bc6673d40c74e107e2a34d2f43dbe2ef89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 03/21] fix: keep the sign of a negative number raised to a
 power

Equation(-2) ** 2 built '-2 ** 2', which evaluates to -4.
---
 NRWAL/handlers/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..cbbe8ea 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -139,7 +139,8 @@ class Equation:
 
         arg1 = self._eqn
         arg2 = other._eqn
-        if not self.is_num(arg1) and not self.is_variable(arg1):
+        if (arg1.lstrip().startswith('-')
+                or not self.is_num(arg1) and not self.is_variable(arg1)):
             arg1 = '({})'.format(arg1)
         if not self.is_num(arg2) and not self.is_variable(arg2):
             arg2 = '({})'.format(arg2)
-- 
2.43.0


From 5553ab45b1194b1681f98b1f58b71e403ec6bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 04/21] fix: only replace whole variable names with equations
 from the group

With a key 'cost' in the group, 'cost + total_cost' became
'(...) + total_(...)'.
---
 NRWAL/handlers/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 5348b21..de7ca27 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -755,7 +755,9 @@ class EquationGroup(AbstractGroup):
                     continue
                 for var in [v for v in eqn.variables if v in group]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    # only replace the full variable name, not part of another
+                    pattern = r'(?<![\w.]){}(?!\w)'.format(re.escape(var))
+                    new_eqn = re.sub(pattern, lambda _: repl_str, eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From 480a83df45d683b5314176878d8899e087439afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 05/21] fix: do not modify the config dictionary passed in by
 the user

The equation directory and interp / nearest flags were popped from the
input dictionary and its values were replaced by Equation objects, so a
second NrwalConfig from the same dictionary silently used other settings.
---
 NRWAL/handlers/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 77e7a52..39b90bd 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -326,6 +326,8 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From c3af80ae323f47ee62debc3f9d5144eb61739248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 06/21] fix: do not share the default variables dictionary with
 the caller

set_default_variables() modified the dictionary passed to the Equation.
---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index cbbe8ea..bf0868e 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,7 +31,7 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
+        self._default_variables = copy.deepcopy(default_variables)
         if self._default_variables is None:
             self._default_variables = {}
 
-- 
2.43.0


From 4cd169dec875d0727d6be4fc14d06f5163ebcb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 07/21] fix: interpolate only as requested and if two equations
 are available

With interp_extrap_power, a missing key raised a ValueError instead of a
KeyError. With interp_extrap_year and use_nearest_power (or vice versa) the
nearest lookup was replaced by an interpolation.
---
 NRWAL/handlers/groups.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index de7ca27..802b05e 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -243,8 +243,11 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
-                    and len(nn_eqns) > 1):
+            elif (len(nn_eqns) > 1
+                    and (self._interp_extrap_power
+                         and self.is_power_eqn(eqn_key)
+                         or self._interp_extrap_year
+                         and self.is_year_eqn(eqn_key))):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-- 
2.43.0


From b6e9d15d7d4adfe9304ab41f6cf02f5003b58556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 08/21] fix: recalculate the outputs when a config is evaluated
 again

A second evaluate() with new inputs returned the outputs from the first.
---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 39b90bd..5840955 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -981,6 +981,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # outputs from previous inputs are no longer valid
+        self.reset_output()
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From baa1385944bca34fd737d71b3b060c3bed51917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 09/21] fix: do not leak default variables into adjacent
 directories

The local variables were added to the dictionary shared by all sub
directories, so that the variables.yaml of one directory became available
to the directories after it in alphabetical order.
---
 NRWAL/handlers/directories.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..6433119 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -534,8 +534,7 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        var_group = {} if var_group is None else copy.deepcopy(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
-- 
2.43.0


From fe00998d419821f973159c02dfc3cadda0af486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 10/21] fix: force default variable updates in nested
 directories

force_update was not passed on to sub directories.
---
 NRWAL/handlers/directories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 6433119..a2817ed 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -546,7 +546,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From cabf50645155360b7e3e720cc4541a71c7217fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 11/21] fix: do not share equations between added groups or
 directories

Setting variables on the sum also changed the object that was added.
---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index a2817ed..b95c5a4 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 802b05e..6f9705e 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From 308a6168dfb67a6a9b1284979878597b6c5958bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 12/21] fix: find the parenthesis of the np / pd method

'(a + b) * np.exp(c)' used the first parenthesis of the whole string.
---
 NRWAL/utilities/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..9f61ba5 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -70,7 +70,7 @@ def find_np_pd_methods(s):
     elif 'pd.' in s:
         start = s.index('pd.')
 
-    paren_ind = find_parens(s)
+    paren_ind = [x for x in find_parens(s) if x[0] > start]
     np_paren = np.argmin([x[0] for x in paren_ind])
     end = paren_ind[np_paren][1]
 
-- 
2.43.0


From a9d3d18fe826753d69afb08eabf5ed2388d1b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/21] fix: evaluate doubled parentheses in config expressions

---
 NRWAL/handlers/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5840955..326bdea 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -602,10 +602,11 @@ class NrwalConfig:
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
             if 'np.' not in pk and 'pd.' not in pk:
-                pk = pk.lstrip('(').rstrip(')')
+                pk = pk.lstrip('(').rstrip(')').strip()
 
-            gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
-                                                gvars, name=name)
+            # multiple parentheses are a workspace entry already: ((a + b))
+            gvars[wkey] = cls._parse_expression(gvars.get(pk, pk), config,
+                                                eqn_dir, gvars, name=name)
 
         if expression in gvars:
             return gvars[expression]
-- 
2.43.0


From 419e460d1857b37ff2e6fb581ffc0ef0c9361055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:49 +0000
Subject: [PATCH 14/21] fix: evaluate doubled parentheses in retrieval keys

---
 NRWAL/handlers/groups.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6f9705e..93b55c6 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -168,8 +168,12 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
-            workspace[wkey] = obj._getitem(pk, workspace)
+            pk = pk.lstrip('(').rstrip(')').strip()
+            if pk in workspace:
+                # multiple parentheses: ((a + b))
+                workspace[wkey] = workspace[pk]
+            else:
+                workspace[wkey] = obj._getitem(pk, workspace)
 
         if key in workspace:
             return workspace[key]
-- 
2.43.0


From 98243d15f56bb4aacfc198e275167e0eb09a3f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:49 +0000
Subject: [PATCH 15/21] fix: raise an error if a retrieval key cannot be parsed

---
 NRWAL/handlers/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 93b55c6..0ae476d 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -197,6 +197,10 @@ class AbstractGroup(ABC):
 
                 return op_fun(out1, out2)
 
+        msg = 'Could not parse equation key: "{}"'.format(key)
+        logger.error(msg)
+        raise KeyError(msg)
+
     def _getitem(self, key, workspace):
         """Protected method for __getitem__ with additional args for
         recursive call.
-- 
2.43.0


From f1e6200092d1e94ed1cd47235afd08298eefe064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:49 +0000
Subject: [PATCH 16/21] fix: parse variable names that contain digits followed
 by an e

Names like cap2energy were split at the digits, and floats printed in
scientific notation raised an AttributeError in configs.
---
 NRWAL/handlers/equations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index bf0868e..a243c5c 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -389,10 +389,9 @@ class Equation:
         """Parse variable names from an expression string."""
 
         # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        re_num = re.compile(r'(?<![\w.])(?:[0-9]+\.?[0-9]*|\.[0-9]+)'
+                            r'[eE][-+]?[0-9]+(?!\w)')
+        expression = re.sub(re_num, '-1', str(expression))
 
         delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
         regex_pattern = '|'.join(map(re.escape, delimiters))
-- 
2.43.0


From 0ee93176befad092fe6f0909d7a51c43cdcaf802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:49 +0000
Subject: [PATCH 17/21] fix: do not split config expressions at the sign of an
 exponent

---
 NRWAL/handlers/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 326bdea..5e8a18c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -9,6 +9,7 @@ import numpy as np
 import yaml
 import json
 import os
+import re
 import operator
 from collections import OrderedDict
 
@@ -628,7 +629,9 @@ class NrwalConfig:
                 # subsequent operators will be found in the recursive
                 # call to _parse_expression()
 
-                iops = [i for i, c in enumerate(expr) if c == ops]
+                # (the sign of an exponent, e.g. 1e-5, is not an operator)
+                iops = [i for i, c in enumerate(expr) if c == ops
+                        and not re.search(r'(?<!\w)[0-9.]+[eE]$', expr[:i])]
                 if ops == '-':
                     # a minus sign with nothing or another operator on its
                     # left (e.g. -var or *-var) is not a subtraction
-- 
2.43.0


From 244682db28225a87be68fd09e43a54c08a2eb96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:01 +0000
Subject: [PATCH 18/21] fix: a key ending in _MW without a number is not a
 power equation

---
 NRWAL/handlers/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 0ae476d..da60b3b 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -396,7 +396,7 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
             base_str = key.replace(power.group(0), '')
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
-- 
2.43.0


From 9a04857a282023848bc127a0ee6fc4def360ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:01 +0000
Subject: [PATCH 19/21] fix: strip only the power / year suffix at the end of
 an equation key

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index da60b3b..9f788f4 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -398,7 +398,7 @@ class AbstractGroup(ABC):
         base_str = key
         power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -505,7 +505,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From d42f6d6a97226fe9fb29890cd880ae66ae4b7bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 20/21] fix: 0MW equations take part in power retrieval

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 9f788f4..4e2f5d6 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -444,10 +444,10 @@ class AbstractGroup(ABC):
             group = self._group
 
         req_mw, base_str = self._parse_power(request)
-        if req_mw:
+        if req_mw is not None:
             for key in group.keys():
                 match_mw, match_base = self._parse_power(key)
-                if match_mw and base_str == match_base:
+                if match_mw is not None and base_str == match_base:
                     eqn_keys.append(key)
                     eqn_powers.append(match_mw)
 
-- 
2.43.0


From b12b4aea1cc0be55c16a13b6c301d550b013360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 21/21] fix: nearest / interpolated retrieval when the last key
 also names a group on the path

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 4e2f5d6..16e480f 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -244,9 +244,9 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for i, eqn_key in enumerate(keys):
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[i:], out)
 
             if eqn_key in out:
                 out = out[eqn_key]
-- 
2.43.0

