From 275eba0422bb78872f24067c58eef669fa995d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:19 +0000
Subject: [PATCH 01/22] fix: rescaling a normal distribution also rescales its
 mean and pedigree variance

The mean and the variance with pedigree uncertainty were left at their old
values, and an exchange with amount zero raised ZeroDivisionError.
---
 ocelot/transformations/uncertainty/distributions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index ac37b5c..f22902b 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -216,11 +216,12 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] = (
-            (obj['amount'] * factor) / obj['amount']
-        ) ** 2 * obj['uncertainty']['variance']
+        for key in ('variance', 'variance with pedigree uncertainty'):
+            if key in obj['uncertainty']:
+                obj['uncertainty'][key] *= factor ** 2
+        if 'mean' in obj['uncertainty']:
+            obj['uncertainty']['mean'] *= factor
         obj['amount'] *= factor
-        # TODO: Adjust variance with pedigree uncertainty
         return Normal.recalculate(obj)
 
     @staticmethod
-- 
2.43.0


From d92334b90486715a8e9b852a7e063b2764d5fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:49 +0000
Subject: [PATCH 02/22] fix: constrained market allocation returns a list of
 datasets

The wrapper iterates over what an allocation function returns, so the keys of
the dataset replaced the dataset and the next function crashed.
---
 ocelot/transformations/cutoff/allocation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..43253d6 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -30,6 +30,15 @@ def no_allocation(dataset):
     return [dataset]
 
 
+def allocate_constrained_market(dataset):
+    """Zero out the conditional exchanges of a constrained market.
+
+    Returns a list of datasets, like every other allocation function."""
+    return [constrained_market_allocation(dataset)]
+
+allocate_constrained_market.__table__ = constrained_market_allocation.__table__
+
+
 def missing_formulas(dataset):
     """Return boolean of whether each technosphere and biosphere are parameterized.
 
@@ -150,7 +159,7 @@ ALLOCATION_METHODS = (
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", allocate_constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From 723e1a3ff00c5e57b5450a161998fc1726ee7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 03/22] fix: formulas which divide by zero are evaluated to
 zero

asteval does not raise the error, so the amount became None instead of zero.
---
 .../parameterization/recalculation.py         | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..39731ea 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -25,6 +25,16 @@ def extract_named_parameters(dataset):
             if 'variable' in exc}
 
 
+def evaluate_formula(interpreter, formula):
+    """Evaluate ``formula``. Formulas that divide by zero are evaluated to zero.
+
+    ``asteval`` doesn't raise errors, but stores them in the interpreter."""
+    value = interpreter(formula)
+    if any(error.exc is ZeroDivisionError for error in interpreter.error):
+        return 0
+    return value
+
+
 class TolerantParameterSet(ParameterSet):
     """Subclass of ParameterSet that sets flawed formulas to zero"""
     def evaluate(self):
@@ -35,11 +45,7 @@ class TolerantParameterSet(ParameterSet):
             # if key in self.global_params:
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
-                try:
-                    value = interpreter(self.params[key]['formula'])
-                except ZeroDivisionError:
-                    # Grumble grumble...
-                    value = 0
+                value = evaluate_formula(interpreter, self.params[key]['formula'])
                 interpreter.symtable[key] = result[key] = value
             elif 'amount' in self.params[key]:
                 interpreter.symtable[key] = result[key] = self.params[key]['amount']
@@ -66,10 +72,7 @@ def recalculate(dataset):
 
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
-            try:
-                exc['amount'] = interpreter(exc['formula'])
-            except ZeroDivisionError:
-                exc['amount'] = 0
+            exc['amount'] = evaluate_formula(interpreter, exc['formula'])
         elif 'variable' in exc:
             exc['amount'] = interpreter.symtable[exc['variable']]
         else:
-- 
2.43.0


From a0cb1ded43f70083842c68f26273fcf61087d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:32 +0000
Subject: [PATCH 04/22] fix: flipping wastes and recyclables to inputs also
 flips their uncertainty

---
 ocelot/transformations/cutoff/wastes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocelot/transformations/cutoff/wastes.py b/ocelot/transformations/cutoff/wastes.py
index aaa4bf6..fa3e739 100644
--- a/ocelot/transformations/cutoff/wastes.py
+++ b/ocelot/transformations/cutoff/wastes.py
@@ -196,8 +196,7 @@ def flip_non_allocatable_byproducts(dataset):
             })
             del exc['byproduct classification']
             exc['type'] = 'from technosphere'
-            # TODO: Use rescale_exchange when new uncertainties code is merged
-            exc['amount'] = -1 * exc['amount']
+            scale_exchange(exc, -1)
             if 'formula' in exc:
                 exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return [dataset]
-- 
2.43.0


From 2af627dbdf116e089c96da1e2ba5952d5e60fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:46 +0000
Subject: [PATCH 05/22] fix: reserved words inside longer variable names are
 left alone, and found inside parentheses

---
 .../parameterization/python_compatibility.py  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..f2e81ee 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,11 +27,11 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
-                     for word in RESERVED_WORDS]
+# Can be used as intended by python in a (repaired) formula
+OPERATORS = {"and", "else", "if", "in", "is", "not", "or"}
 
-RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
+RESERVED_WORDS_RE = [(word, re.compile(r"\b{}\b".format(word)))
+                     for word in RESERVED_WORDS]
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
@@ -194,17 +194,20 @@ def get_ast_names(string):
 def check_and_fix_formula(ds, string):
     """Check if the formula is usable in ``asteval``.
 
-    First, check to make sure that the formula doesn't start with a reserved word that would be valid python but wouldn't produce meaningful results. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable.
+    First, look for reserved words that would be valid python but wouldn't produce meaningful results. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable. Words like ``if`` and ``and``, which have a meaning inside a formula, are only treated as a variable at the start of the formula.
+
+    Next, we check if the formula is parsable. If it isn't, we also treat words like ``if`` and ``and`` as variables.
 
-    Next, we check if the formula is parsable. If it isn't, we search for reserved words in the formula, using a regular expression like ``[^a-zA-Z_]?yield[^a-zA-Z_]?``. The regular expression is necessary to avoid find reserved words inside longer variable names like ``yield_management``, which are valid and should be left alone.
+    Only whole words are considered, as reserved words inside longer variable names like ``yield_management`` are valid and should be left alone.
 
     In either case, if reserved words are found, they are replaced with their uppercase equivalents.
 
     If the formula can't be repaired, it is returned in its original form; otherwise the new formula is returned."""
     updated = deepcopy(string)
-    for word, reg_exp in RESERVED_WORDS_STARTING:
-        if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
+    for word, reg_exp in RESERVED_WORDS_RE:
+        search = reg_exp.match if word in OPERATORS else reg_exp.search
+        if search(updated):
+            updated = reg_exp.sub(word.upper(), updated)
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], word, string)
@@ -217,7 +220,7 @@ def check_and_fix_formula(ds, string):
         found = []
         for word, reg_exp in RESERVED_WORDS_RE:
             if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
+                updated = reg_exp.sub(word.upper(), updated)
                 found.append(word)
         try:
             get_ast_names(updated)
-- 
2.43.0


From 76679de181fa2fb85336fe40f5d259d09c14599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:35 +0000
Subject: [PATCH 06/22] fix: power clauses can have variables, parentheses and
 other clauses as arguments

---
 .../parameterization/python_compatibility.py  | 41 +++++++++++++++----
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index f2e81ee..beb29bf 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -37,7 +37,7 @@ IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
-POWER_RE = re.compile("power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)")
+POWER_BEGINNING = re.compile("power\(")
 
 
 def find_if_boundaries(string):
@@ -117,16 +117,39 @@ def find_if_clause(ds, string):
 
 
 def find_power_clause(ds, string):
-    while POWER_RE.search(string):
-        match = POWER_RE.search(string)
-        match_string = match.group(0)
-        as_numbers = [float(x) for x in match.groups()]
-        replacement = "(({})**({}))".format(*as_numbers)
+    """Replace ``power(base;exponent)`` with ``((base)**(exponent))``.
+
+    Nested clauses are replaced from the inside out. Numbers are normalized, as leading zeros are not allowed in python."""
+    def normalize(element):
+        try:
+            return float(element)
+        except ValueError:
+            return element.strip()
+
+    def separator(clause):
+        """Index of first ``;`` that isn't inside other parentheses"""
+        return next((index for index, character in enumerate(clause)
+                     if character == ";"
+                     and clause[:index].count("(") == clause[:index].count(")")),
+                    len(clause))
+
+    for match in reversed(list(POWER_BEGINNING.finditer(string))):
+        # The last clause has no other ``power`` clauses inside
+        start = match.start()
+        try:
+            begin, end = find_if_boundaries(string[start:])
+        except ValueError:
+            continue  # Not balanced, so can't be parsed
+        clause = string[start + begin:start + end]
+        middle = separator(clause)
+        replacement = "(({})**({}))".format(
+            normalize(clause[:middle]), normalize(clause[middle + 1:])
+        )
         logger.info({
             'type': 'table element',
-            'data': (ds['name'], '', match_string, replacement)
+            'data': (ds['name'], '', string[start:start + end + 1], replacement)
         })
-        string = string.replace(match_string, replacement)
+        string = string[:start] + replacement + string[start + end + 1:]
     return string
 
 
@@ -143,8 +166,8 @@ def fix_math_formulas(data):
                         'data': (ds['name'], exc['formula'], bad, good)
                     })
                     exc['formula'] = exc['formula'].replace(bad, good)
-            exc['formula'] = find_if_clause(ds, exc['formula'])
             exc['formula'] = find_power_clause(ds, exc['formula'])
+            exc['formula'] = find_if_clause(ds, exc['formula'])
     return data
 
 fix_math_formulas.__table__ = {
-- 
2.43.0


From 9ccdfc8bf8954d4d1d406b9ff4632e8d988dfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:06 +0000
Subject: [PATCH 07/22] fix: market groups get the rest-of-world market when a
 larger supplier comes first

---
 ocelot/transformations/locations/market_groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 764b815..ed7e92c 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -61,7 +61,9 @@ def link_market_group_suppliers(data):
             found, to_add = [], []
 
             for candidate in ordered:
-                if topology.contains(loc, candidate, subtract=found, resolved_row=resolved_supplier_row):
+                # ``RoW`` must be resolved, as what an abstract ``RoW`` contains is unknown
+                area = resolved_supplier_row if candidate == 'RoW' else candidate
+                if topology.contains(loc, area, subtract=found, resolved_row=resolved_supplier_row):
                     if candidate in markets:
                         found.append(candidate)
                         to_add.append(markets[candidate])
-- 
2.43.0


From 4745124b9506e146ff3db989fb2a6fbc35d57512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 08/22] fix: only the exchanges that could not be linked are
 deleted

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..b0a90c8 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -242,7 +242,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From 79faccd36da13a3342ca006a775911a9cd84cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:31 +0000
Subject: [PATCH 09/22] fix: refinery gas without a market is not linked to the
 markets of another product

---
 ocelot/transformations/locations/linking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index b0a90c8..974df2a 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,8 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    # Its market was deleted, so there is nothing to link to
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 95d8d181bdff392294f25d0f2fa06da3bbcae058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 10/22] fix: only activity links to constrained activities are
 deleted

---
 ocelot/transformations/consequential/constrained_markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e7aba88 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -92,7 +92,7 @@ def delete_activity_links_to_constrained_markets(data):
         exchange_iterator = (
             exc for exc in ds['exchanges']
             if not exc.get('conditional exchange')
-            and exc.get('activity link')
+            and exc.get('activity link') in constrained_activities
         )
         for exc in exchange_iterator:
             del exc['activity link']
-- 
2.43.0


From c7f8029b11ae436c4f15eab9f55354e3ea92e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 11/22] fix: constrained exchanges are flipped with their
 uncertainty

---
 ocelot/transformations/consequential/constrained_markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index e7aba88..6a76a21 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -1,12 +1,13 @@
 # -*- coding: utf-8 -*-
 from ... import toolz
+from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
 
 def flip_exchange(exc):
-    """Flip amount and formula of an exchange"""
-    exc['amount'] = -1 * exc['amount']
+    """Flip amount, uncertainty and formula of an exchange"""
+    scale_exchange(exc, -1)
     if 'formula' in exc:
         exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return exc
-- 
2.43.0


From bfef9911df529cfe3c07599c65d41f795295572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:52 +0000
Subject: [PATCH 12/22] fix: technology level clean-up runs both of its
 functions

---
 ocelot/transformations/consequential/technology_levels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..0052d8c 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -44,6 +44,7 @@ switch_undefined_to_current.__table__ = {
 
 
 cleanup_technology_levels = Collection(
+    "Clean up technology levels",
     log_conflicting_technology_levels,
     switch_undefined_to_current,
 )
-- 
2.43.0


From a6eec85d06df3ef68a16d9e7320a50fc46b9bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:17 +0000
Subject: [PATCH 13/22] fix: undefined technology levels become current before
 markets choose their suppliers

---
 ocelot/transformations/consequential/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 7c001fd..653fd03 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -21,12 +21,14 @@ from .constrained_markets import (
 )
 from .market_linking import prune_suppliers_by_technology_level
 from .combined import split_combined_production
+from .technology_levels import cleanup_technology_levels
 from functools import partial
 
 
 link_markets_by_technology_level = Collection(
     "Consequential market linking by technology level",
     label_reference_product,
+    cleanup_technology_levels,
     delete_whitelisted_zero_pv_market_datsets,
     assign_fake_pv_to_confidential_datasets,
     relabel_global_to_row,
-- 
2.43.0


From fdbee500ca5f540988690d3aa94c1ee67aa382d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:02 +0000
Subject: [PATCH 14/22] fix: consequential market groups take their product
 from their suppliers

---
 ocelot/transformations/consequential/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 653fd03..54b31c4 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -41,6 +41,7 @@ link_markets_by_technology_level = Collection(
                                       to_type="market group"),
     partial(update_market_production_volumes, kind='market group'),
     allocate_all_market_suppliers,
+    partial(allocate_all_market_suppliers, kind='market group'),
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
-- 
2.43.0


From 8459848c71a504a9480a32aec74c7c787309c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 15/22] fix: functions nested in lists of a configuration get
 the followed file

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From 61cc7400d39c87ffc9addf39411ca8ce6051e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 16/22] fix: cache of a source directory without visible files

---
 ocelot/filesystem.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..4abe501 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -97,12 +97,9 @@ def check_cache_directory(data_path):
     if not os.path.exists(cache_fp):
         return False
     cache_time = os.stat(cache_fp).st_mtime
-    source_time = max([
-        os.stat(data_path).st_mtime,
-        max(
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
-        )
+    source_time = max([os.stat(data_path).st_mtime] + [
+        os.stat(os.path.join(data_path, fn)).st_mtime for fn in
+        filter(lambda x: not x.startswith("."), os.listdir(data_path))
     ])
     return cache_time > source_time
 
-- 
2.43.0


From e5a623683d43ead9aa345dc2d19124e06228ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:45 +0000
Subject: [PATCH 17/22] fix: consequential transformations log to the ocelot
 logger so that their tables reach the report

---
 .../transformations/consequential/constrained_markets.py  | 6 ++++--
 ocelot/transformations/consequential/technology_levels.py | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index 6a76a21..181258e 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -4,6 +4,8 @@ from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount, uncertainty and formula of an exchange"""
@@ -59,7 +61,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -97,7 +99,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 0052d8c..51da824 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
@@ -39,7 +41,7 @@ def switch_undefined_to_current(data):
 
 switch_undefined_to_current.__table__ = {
     'title': 'Switch all `undefined` activity technology levels to `current`',
-    'columns': ["Reference product", "Number of datasets"]
+    'columns': ["Activity", "Reference product", "Location"]
 }
 
 
-- 
2.43.0


From 979e3dabd22926e51c338f5a1ba0320a278330db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 18/22] fix: reference products of the consequential model get
 codes so that its databases can be converted to Brightway2

---
 ocelot/transformations/consequential/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 54b31c4..3e34865 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -3,6 +3,7 @@ from ...collection import Collection
 from ..identifying import add_unique_codes
 from ..locations import (
     actualize_activity_links,
+    add_reference_product_codes,
     add_suppliers_to_markets,
     allocate_all_market_suppliers,
     assign_fake_pv_to_confidential_datasets,
@@ -45,5 +46,6 @@ link_markets_by_technology_level = Collection(
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
+    add_reference_product_codes,
     log_and_delete_unlinked_exchanges,
 )
-- 
2.43.0


From 601d1ff90eea9171b1354353a4510367fb0a96bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:33 +0000
Subject: [PATCH 19/22] fix: extracting a directory without files with
 use_mp=False returns no datasets

---
 ocelot/io/extract_ecospold2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..46c3f29 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -242,8 +242,9 @@ def extract_ecospold2_directory(dirpath, use_mp=True):
                 raise KeyboardInterrupt
         print("Extracted {} undefined datasets in {:.1f} seconds".format(len(data), time() - start))
     else:
+        # A progress bar needs at least one file
         data = [generic_extractor(fp)
-                for fp in pyprind.prog_bar(filelist)]
+                for fp in (pyprind.prog_bar(filelist) if filelist else [])]
 
     # Unroll lists of lists
     return [y for x in data for y in x]
-- 
2.43.0


From 3231e0b5b5dc6aa5f10992274c153ee6a87f3ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:32 +0000
Subject: [PATCH 20/22] fix: validating a directory without files reports no
 errors instead of AssertionError

---
 ocelot/io/validate_ecospold2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index 59a96d9..0776574 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -25,7 +25,8 @@ def validate_directory_against_xsd(dirpath, schema):
     errors = []
     ecospold2_schema = etree.XMLSchema(etree.parse(open(schema)))
 
-    for fp in pyprind.prog_bar(filelist):
+    # A progress bar needs at least one file
+    for fp in (pyprind.prog_bar(filelist) if filelist else []):
         file = etree.parse(open(fp))
         if not ecospold2_schema.validate(file):
             errors.append(os.path.basename(fp))
@@ -40,7 +41,7 @@ def validate_directory_against_xsd(dirpath, schema):
 def validate_directory(dirpath):
     data, errors = extract_directory(dirpath, False), {}
     print("Validating datasets:")
-    for ds in pyprind.prog_bar(data):
+    for ds in (pyprind.prog_bar(data) if data else []):
         try:
             dataset_schema(ds)
         except Invalid as err:
-- 
2.43.0


From 19acd0eb407d5a02417aaedb4e2f0536deb25204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 21/22] fix: use the pedigree matrix where extraction stores it

---
 .../uncertainty/distributions.py                | 10 +++++-----
 ocelot/transformations/uncertainty/pedigree.py  | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index f22902b..cb1a742 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 from . import remove_exchange_uncertainty
-from .pedigree import get_pedigree_variance
+from .pedigree import get_pedigree_matrix, get_pedigree_variance
 import math
 import numpy as np
 import stats_arrays as sa
@@ -111,21 +111,21 @@ class Lognormal(NoUncertainty):
         obj['uncertainty']['mu'] = math.log(obj['uncertainty']['mean'])
         obj['uncertainty']['variance'] = (
             obj['uncertainty']['variance with pedigree uncertainty'] -
-            get_pedigree_variance(obj.get('pedigree matrix', {}))
+            get_pedigree_variance(get_pedigree_matrix(obj))
         )
         if fix_extremes and 1 <= obj['uncertainty']['variance'] <= math.e:
             # TODO: Log this
             obj['uncertainty']['variance'] = math.log(obj['uncertainty']['variance'])
             obj['uncertainty']['variance with pedigree uncertainty'] = (
                 obj['uncertainty']['variance'] +
-                get_pedigree_variance(obj.get('pedigree matrix', {}))
+                get_pedigree_variance(get_pedigree_matrix(obj))
             )
         elif fix_extremes and obj['uncertainty']['variance'] > math.e:
             # TODO: Log this
             obj['uncertainty']['variance'] = 0.25
             obj['uncertainty']['variance with pedigree uncertainty'] = (
                 obj['uncertainty']['variance'] +
-                get_pedigree_variance(obj.get('pedigree matrix', {}))
+                get_pedigree_variance(get_pedigree_matrix(obj))
             )
         return obj
 
@@ -151,7 +151,7 @@ class Lognormal(NoUncertainty):
         """Recalculate uncertainty values based on new pedigree matrix values"""
         obj['uncertainty']['variance with pedigree uncertainty'] = (
             obj['uncertainty']['variance'] +
-            get_pedigree_variance(obj.get('pedigree matrix', {}))
+            get_pedigree_variance(get_pedigree_matrix(obj))
         )
         return obj
 
diff --git a/ocelot/transformations/uncertainty/pedigree.py b/ocelot/transformations/uncertainty/pedigree.py
index 3ba85f6..0cee5a7 100644
--- a/ocelot/transformations/uncertainty/pedigree.py
+++ b/ocelot/transformations/uncertainty/pedigree.py
@@ -11,6 +11,7 @@ PEDIGREE_MATRIX_VALUES = {
         "temporal correlation": (0, 0.0002, 0.002, 0.008, 0.04),
         "geographical correlation": (0, 0.000025, 0.0001, 0.0006, 0.002),
         "further technological correlation": (0, 0.0006, 0.008, 0.04, 0.12),
+        "further technology correlation": (0, 0.0006, 0.008, 0.04, 0.12),
         "sample size": (0, 9.8e-05, 0.0006, 0.0023, 0.0083)
     },
     # From "Empirically based uncertainty factors for the pedigree matrix in ecoinvent"
@@ -21,11 +22,20 @@ PEDIGREE_MATRIX_VALUES = {
         "temporal correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
         "geographical correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
         "further technological correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
+        "further technology correlation": (0, 0.00022, 0.0023, 0.0076, 0.016),
         "sample size": (0,0,0,0,0)
     }
 }
 
 
+def get_pedigree_matrix(obj):
+    """Get the pedigree matrix of ``obj``.
+
+    In the Ocelot data format, it is stored in the uncertainty distribution; a matrix in ``obj`` itself is also accepted."""
+    return (obj.get('uncertainty', {}).get('pedigree matrix') or
+            obj.get('pedigree matrix', {}))
+
+
 def get_pedigree_variance(pm, version="original"):
     """Get additional variance added by ``pm``"""
     assert all(isinstance(obj, int) for obj in pm.values())
@@ -54,11 +64,12 @@ def adjust_pedigree_matrix_time(ds, exc, year):
     Modifies the exchange in place, and returns the modified exchange.
 
     """
-    if 'pedigree matrix' not in exc:
+    pedigree_matrix = get_pedigree_matrix(exc)
+    if not pedigree_matrix:
         return exc
 
     difference = get_difference_in_years(ds['end date'], year)
-    current_value = exc['pedigree matrix']['temporal correlation']
+    current_value = pedigree_matrix['temporal correlation']
 
     if difference > 0:
         if current_value == 3 and difference <= 5:
@@ -75,5 +86,5 @@ def adjust_pedigree_matrix_time(ds, exc, year):
             new_value = 4
         else:
             new_value = 5
-        exc['pedigree matrix']['temporal correlation'] = new_value
+        pedigree_matrix['temporal correlation'] = new_value
     return exc
-- 
2.43.0


From 33f2744867304af3f24191964b77a57207aec080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 22/22] fix: stop writing to the logs of earlier model runs

---
 ocelot/logger.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..97f2d51 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -40,8 +40,17 @@ class DatasetJsonFormatter(logging.Formatter):
         return json.dumps(message_dict, ensure_ascii=False)
 
 
+def close_old_handlers(logger):
+    """Stop writing to the log files of earlier model runs"""
+    for handler in list(logger.handlers):
+        if isinstance(handler, logging.FileHandler):
+            logger.removeHandler(handler)
+            handler.close()
+
+
 def create_log(output_dir):
     logger = logging.getLogger('ocelot')
+    close_old_handlers(logger)
     logger.propagate = False
     formatter = JsonFormatter()
     filepath = os.path.join(output_dir, "report.log.json")
@@ -54,6 +63,7 @@ def create_log(output_dir):
 
 def create_detailed_log(output_dir):
     logger = logging.getLogger('ocelot-detailed')
+    close_old_handlers(logger)
     logger.propagate = False
     formatter = DatasetJsonFormatter()
     filepath = os.path.join(output_dir, "detailed.log.json")
-- 
2.43.0

