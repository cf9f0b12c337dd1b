From 05ec73f9086e392d39de083b5e713c9ab10a55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 01/43] fix: reject economic allocation with zero total revenue
 or true value

Previously the allocation factors were 0/0, and every exchange amount silently became NaN.
---
 ocelot/transformations/cutoff/economic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocelot/transformations/cutoff/economic.py b/ocelot/transformations/cutoff/economic.py
index e6e5345..216427d 100644
--- a/ocelot/transformations/cutoff/economic.py
+++ b/ocelot/transformations/cutoff/economic.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from ...errors import InvalidExchange
 from .utils import apply_allocation_factors
 from .validation import valid_economic_activity
 from ..utils import (
@@ -39,10 +40,16 @@ def economic_allocation(dataset, use_true_value=True):
 
     """
     df = allocatable_production_as_dataframe(dataset)
+    if not df['revenue'].sum():
+        message = "Can't allocate by revenue, as total revenue is zero:\n{}"
+        raise InvalidExchange(message.format(dataset['filepath']))
     factors = df['revenue'] / df['revenue'].sum()
     if use_true_value:
         mask = df['has true value']
         true_value = (df['true value'] * df['amount'])
+        if mask.any() and not true_value.sum():
+            message = "Can't allocate by true value, as total true value is zero:\n{}"
+            raise InvalidExchange(message.format(dataset['filepath']))
         true_value_revenue_fraction = (
             df['revenue'][mask].sum() /
             df['revenue'].sum()
-- 
2.43.0


From a245127274c2f0a50030df11148d6d269092f6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:01 +0000
Subject: [PATCH 02/43] fix: scale mean and total variance of normal
 distributions, and zero-amount lognormals

Rescaling an exchange left the mean and the variance with pedigree uncertainty of normal distributions unscaled, so the distribution no longer described the scaled amount. Rescaling zero amounts raised ZeroDivisionError or a math domain error.
---
 ocelot/transformations/uncertainty/distributions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index ac37b5c..6301262 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -142,6 +142,9 @@ class Lognormal(NoUncertainty):
             return remove_exchange_uncertainty(obj)
         else:
             obj['amount'] *= factor
+            if not obj['amount']:
+                # Lognormal is not defined for zero, see ``repair``
+                return remove_exchange_uncertainty(obj)
             obj['uncertainty']['mean'] = abs(obj['amount'])
             obj['uncertainty']['mu'] = math.log(obj['uncertainty']['mean'])
             return obj
@@ -216,11 +219,12 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] = (
-            (obj['amount'] * factor) / obj['amount']
-        ) ** 2 * obj['uncertainty']['variance']
         obj['amount'] *= factor
-        # TODO: Adjust variance with pedigree uncertainty
+        if 'mean' in obj['uncertainty']:
+            obj['uncertainty']['mean'] *= factor
+        for field in ('variance', 'variance with pedigree uncertainty'):
+            if field in obj['uncertainty']:
+                obj['uncertainty'][field] *= factor ** 2
         return Normal.recalculate(obj)
 
     @staticmethod
-- 
2.43.0


From 286d7e8939df5421bef3b396895591f2c5a462f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 03/43] fix: evaluate formulas that divide by zero to zero

asteval stores exceptions instead of raising them, so amounts became None.
---
 .../parameterization/recalculation.py         | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..ac58a92 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -25,6 +25,16 @@ def extract_named_parameters(dataset):
             if 'variable' in exc}
 
 
+def evaluate_formula(interpreter, formula):
+    """Evaluate ``formula`` using ``interpreter``. Division by zero evaluates to zero.
+
+    ``asteval`` doesn't raise errors, but stores them in ``interpreter.error``."""
+    value = interpreter(formula)
+    if any(err.exc is ZeroDivisionError for err in interpreter.error):
+        return 0
+    return value
+
+
 class TolerantParameterSet(ParameterSet):
     """Subclass of ParameterSet that sets flawed formulas to zero"""
     def evaluate(self):
@@ -35,11 +45,8 @@ class TolerantParameterSet(ParameterSet):
             # if key in self.global_params:
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
-                try:
-                    value = interpreter(self.params[key]['formula'])
-                except ZeroDivisionError:
-                    # Grumble grumble...
-                    value = 0
+                # Grumble grumble...
+                value = evaluate_formula(interpreter, self.params[key]['formula'])
                 interpreter.symtable[key] = result[key] = value
             elif 'amount' in self.params[key]:
                 interpreter.symtable[key] = result[key] = self.params[key]['amount']
@@ -66,10 +73,7 @@ def recalculate(dataset):
 
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
-            try:
-                exc['amount'] = interpreter(exc['formula'])
-            except ZeroDivisionError:
-                exc['amount'] = 0
+            exc['amount'] = evaluate_formula(interpreter, exc['formula'])
         elif 'variable' in exc:
             exc['amount'] = interpreter.symtable[exc['variable']]
         else:
-- 
2.43.0


From e00497d4bb97c061a8d33455de9c6903bb81bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 04/43] fix: keep constrained market datasets during cutoff
 allocation

Allocation functions must return a list of datasets; constrained_market_allocation returns the dataset itself, so the dataset was replaced by its field names.
---
 ocelot/transformations/cutoff/allocation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..3a21d13 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -16,6 +16,7 @@ from .wastes import (
     recycling_allocation,
     recycling_2_allocation,
 )
+import functools
 import logging
 
 logger = logging.getLogger('ocelot')
@@ -30,6 +31,11 @@ def no_allocation(dataset):
     return [dataset]
 
 
+@functools.wraps(constrained_market_allocation)
+def constrained_market(dataset):
+    return [constrained_market_allocation(dataset)]
+
+
 def missing_formulas(dataset):
     """Return boolean of whether each technosphere and biosphere are parameterized.
 
@@ -150,7 +156,7 @@ ALLOCATION_METHODS = (
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From 740fdc15cb3a8cab3a31c695ed3fd38020791563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 05/43] fix: pass `follow` when applying nested lists of
 transformation functions

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From b70853cc347a776dfaadc1ff47fb61a2d713528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 06/43] fix: don't link refinery gas to suppliers of the
 previous exchange

When no market for refinery gas exists, the exchange was linked using the candidates of the previously linked exchange.
---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..47ab752 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,7 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 450d048213c0f64629a2af458395a410de3a54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:01 +0000
Subject: [PATCH 07/43] fix: delete only unlinked exchanges in
 log_and_delete_unlinked_exchanges

The code of the dataset was tested instead of the exchange, so nothing was ever deleted.
---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 47ab752..ac71b7f 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -242,7 +242,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From fa8bbfd0e83f5e1a4c79fe2862ddb18d6de71a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 08/43] fix: stop logging to the log files of previous model
 runs

Log handlers were added for each model run, but never removed, so that a second run in the same process was also appended to the logs of the first run.
---
 ocelot/logger.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..cca74b5 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -40,8 +40,16 @@ class DatasetJsonFormatter(logging.Formatter):
         return json.dumps(message_dict, ensure_ascii=False)
 
 
+def remove_handlers(logger):
+    """Remove and close handlers from previous model runs in the same process"""
+    for handler in list(logger.handlers):
+        logger.removeHandler(handler)
+        handler.close()
+
+
 def create_log(output_dir):
     logger = logging.getLogger('ocelot')
+    remove_handlers(logger)
     logger.propagate = False
     formatter = JsonFormatter()
     filepath = os.path.join(output_dir, "report.log.json")
@@ -54,6 +62,7 @@ def create_log(output_dir):
 
 def create_detailed_log(output_dir):
     logger = logging.getLogger('ocelot-detailed')
+    remove_handlers(logger)
     logger.propagate = False
     formatter = DatasetJsonFormatter()
     filepath = os.path.join(output_dir, "detailed.log.json")
-- 
2.43.0


From 7e7a8036412a46030c0cfdd232c41adaa0a9f9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 09/43] fix: allow empty source directories in
 check_cache_directory

---
 ocelot/filesystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..4bee6d1 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -100,8 +100,9 @@ def check_cache_directory(data_path):
     source_time = max([
         os.stat(data_path).st_mtime,
         max(
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
+            (os.stat(os.path.join(data_path, fn)).st_mtime for fn in
+            filter(lambda x: not x.startswith("."), os.listdir(data_path))),
+            default=0
         )
     ])
     return cache_time > source_time
-- 
2.43.0


From 8b4fc1853c219e4c39760a8ccc9c4817e6bab9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 10/43] fix: write cache files atomically

An interrupted write left a truncated cache file which was newer than the source data, so every later model run failed while trying to load it.
---
 ocelot/filesystem.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 4bee6d1..2aac5a0 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -116,9 +116,19 @@ def get_from_cache(data_path):
 
 
 def cache_data(data, data_path):
-    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
-    with open(get_cache_filepath_for_data_path(data_path), "wb") as f:
-        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
+
+    Writes to a temporary file first, so that interrupted or concurrent model runs never leave or read an incomplete cache file."""
+    cache_fp = get_cache_filepath_for_data_path(data_path)
+    temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
+    try:
+        with open(temp_fp, "wb") as f:
+            pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(temp_fp, cache_fp)
+    except:
+        if os.path.exists(temp_fp):
+            os.remove(temp_fp)
+        raise
 
 
 class OutputDir(object):
-- 
2.43.0


From f8b83f40e811d6fb57f8ff204ce9a3ebea6bab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 11/43] fix: don't treat cache as fresh if source files changed
 during extraction

---
 ocelot/filesystem.py  | 8 ++++++--
 ocelot/io/__init__.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 2aac5a0..1061f8f 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -115,15 +115,19 @@ def get_from_cache(data_path):
     return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
 
 
-def cache_data(data, data_path):
+def cache_data(data, data_path, timestamp=None):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
 
-    Writes to a temporary file first, so that interrupted or concurrent model runs never leave or read an incomplete cache file."""
+    Writes to a temporary file first, so that interrupted or concurrent model runs never leave or read an incomplete cache file.
+
+    ``timestamp`` is when extraction was started. It is used as the modification time of the cache file, so that source files which are changed during extraction invalidate the cache."""
     cache_fp = get_cache_filepath_for_data_path(data_path)
     temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
     try:
         with open(temp_fp, "wb") as f:
             pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+        if timestamp is not None:
+            os.utime(temp_fp, (timestamp, timestamp))
         os.replace(temp_fp, cache_fp)
     except:
         if os.path.exists(temp_fp):
diff --git a/ocelot/io/__init__.py b/ocelot/io/__init__.py
index 6515bd4..68f20e9 100644
--- a/ocelot/io/__init__.py
+++ b/ocelot/io/__init__.py
@@ -9,6 +9,7 @@ __all__ = (
 
 from .extract_ecospold2 import extract_ecospold2_directory
 from ..filesystem import check_cache_directory, get_from_cache, cache_data
+from time import time
 import os
 
 
@@ -25,8 +26,9 @@ def extract_directory(data_path, use_cache=True, use_mp=True):
         print("Using cached ecospold2 data")
         return get_from_cache(data_path)
     else:
+        start = time()
         data = extract_ecospold2_directory(data_path, use_mp)
-        cache_data(data, data_path)
+        cache_data(data, data_path, start)
     return data
 
 from .cleanup import cleanup_data_directory
-- 
2.43.0


From a3f76d168778bd0bd61d4f5741f21fecec02a14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:01 +0000
Subject: [PATCH 12/43] fix: flip uncertainty together with the amount of
 non-allocatable byproducts

---
 ocelot/transformations/cutoff/utils.py  | 4 ++--
 ocelot/transformations/cutoff/wastes.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/cutoff/utils.py b/ocelot/transformations/cutoff/utils.py
index 1680d26..ab3c7b7 100644
--- a/ocelot/transformations/cutoff/utils.py
+++ b/ocelot/transformations/cutoff/utils.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from ..uncertainty import scale_exchange
 from ..utils import (
     choose_reference_product_exchange,
     single_input,
@@ -27,10 +28,9 @@ def flip_non_allocatable_byproducts(dataset):
     Change something from an output to an input requires flipping the sign of any numeric fields."""
     for exc in dataset['exchanges']:
         if exc['type'] == 'byproduct' and exc['byproduct classification'] != 'allocatable product':
-            # TODO: Also need to change uncertainty?
             exc['type'] = 'from technosphere'
             del exc['byproduct classification']
-            exc['amount'] = -1 * exc['amount']
+            scale_exchange(exc, -1)
             if 'formula' in exc:
                 exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return dataset
diff --git a/ocelot/transformations/cutoff/wastes.py b/ocelot/transformations/cutoff/wastes.py
index aaa4bf6..fa3e739 100644
--- a/ocelot/transformations/cutoff/wastes.py
+++ b/ocelot/transformations/cutoff/wastes.py
@@ -196,8 +196,7 @@ def flip_non_allocatable_byproducts(dataset):
             })
             del exc['byproduct classification']
             exc['type'] = 'from technosphere'
-            # TODO: Use rescale_exchange when new uncertainties code is merged
-            exc['amount'] = -1 * exc['amount']
+            scale_exchange(exc, -1)
             if 'formula' in exc:
                 exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return [dataset]
-- 
2.43.0


From 763c9eda10a7bd0319c4dd28e84fe251ae4dcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:51 +0000
Subject: [PATCH 13/43] fix: link waste and recyclable outputs in the cutoff
 system model

Non-allocatable byproducts were changed to inputs only after linking, so they never got a supplier.
---
 ocelot/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/configuration.py b/ocelot/configuration.py
index 7e7fd9e..c661ed9 100644
--- a/ocelot/configuration.py
+++ b/ocelot/configuration.py
@@ -59,11 +59,11 @@ cutoff_config = Collection(
     manage_activity_links,
     handle_waste_outputs,
     cutoff_allocation,
+    flip_non_allocatable_byproducts,
     drop_rp_activity_links,
     link_markets_by_pv,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
@@ -88,11 +88,11 @@ cutoff_config_ecoinvent_row = Collection(
     manage_activity_links,
     handle_waste_outputs,
     cutoff_allocation,
+    flip_non_allocatable_byproducts,
     drop_rp_activity_links,
     link_markets_by_pv_ecoinvent_row,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
-- 
2.43.0


From 33dbcf3bbe8ca0309c6b409211d0d75ac8ac9d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 14/43] fix: resolve RoW of consumers per technology and
 reference product

---
 ocelot/transformations/locations/linking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index ac71b7f..568bd3e 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -104,12 +104,13 @@ def link_consumers_to_markets(data):
     ))
 
     # Used only to resolve RoW for consumers
+    row_key = lambda x: (x['name'], x['reference product'])
     ma_mapping = dict(toolz.groupby(
-        'name',
+        row_key,
         filter(ma_filter, data)
     ))
     ta_mapping = dict(toolz.groupby(
-        'name',
+        row_key,
         filter(ta_filter, data)
     ))
 
@@ -128,7 +129,7 @@ def link_consumers_to_markets(data):
             else:
                 dct = ma_mapping
             consumer_row = topology.resolve_row(
-                [x['location'] for x in dct[ds['name']]]
+                [x['location'] for x in dct[row_key(ds)]]
             )
         else:
             consumer_row = None
-- 
2.43.0


From b3e5037c40e0f3277e152f4040a9d6391c5c89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:52 +0000
Subject: [PATCH 15/43] fix: supply market groups from RoW markets which they
 contain

---
 ocelot/transformations/locations/market_groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 764b815..516be7f 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -61,7 +61,8 @@ def link_market_group_suppliers(data):
             found, to_add = [], []
 
             for candidate in ordered:
-                if topology.contains(loc, candidate, subtract=found, resolved_row=resolved_supplier_row):
+                child = resolved_supplier_row if candidate == 'RoW' else candidate
+                if topology.contains(loc, child, subtract=found):
                     if candidate in markets:
                         found.append(candidate)
                         to_add.append(markets[candidate])
-- 
2.43.0


From 5dc6951da592e7972833a25df59f6df90a88917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:11 +0000
Subject: [PATCH 16/43] fix: don't fail on market groups without suppliers

---
 ocelot/transformations/locations/market_groups.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 516be7f..304e20d 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -81,10 +81,6 @@ def link_market_group_suppliers(data):
                 )
             ]
 
-            if not ds['suppliers']:
-                del ds['suppliers']
-                continue
-
             for exc in ds['suppliers']:
                 logger.info({
                     'type': 'table element',
-- 
2.43.0


From aa1899639d01526338c9f75e4a70f82b8126a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 17/43] fix: delete all zero production volume RoW datasets,
 not only the first

---
 ocelot/transformations/locations/markets.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index ac1cedf..45a577b 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -409,16 +409,14 @@ def delete_global_with_zero_pv_when_regional_present(data, kind="market activity
     for rp, group in grouped.items():
         if len(group) < 2:
             continue
-        try:
-            row = next(ds for ds in group if ds['location'] == 'RoW')
-            assert not original_production_volume(row)
+        for row in group:
+            if row['location'] != 'RoW' or original_production_volume(row):
+                continue
             purge.append(row)
             logger.info({
                 'type': 'table element',
                 'data': (row['name'], rp, row['location'])
             })
-        except (StopIteration, AssertionError):
-            continue
     return [ds for ds in data if ds not in purge]
 
 delete_global_with_zero_pv_when_regional_present.__table__ = {
-- 
2.43.0


From a9d75cd7463c6a6d7605523228a2eb8c9a8ffe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:51 +0000
Subject: [PATCH 18/43] fix: don't delete zero production volume datasets which
 are hard linked

---
 ocelot/transformations/locations/markets.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index 45a577b..901bebe 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -402,15 +402,23 @@ assign_fake_pv_to_confidential_datasets.__table__ = {
 
 
 def delete_global_with_zero_pv_when_regional_present(data, kind="market activity"):
-    """"""
+    """Delete ``RoW`` datasets with no production volume if there are other datasets with the same reference product.
+
+    Keeps datasets which are the target of hard (activity) links from other datasets."""
     purge = []
+    hard_linked = {exc['code']
+                   for ds in data
+                   for exc in ds['exchanges']
+                   if exc.get('code') and exc['code'] != ds.get('code')}
     act_filter = lambda x: x['type'] == kind
     grouped = toolz.groupby("reference product", filter(act_filter, data))
     for rp, group in grouped.items():
         if len(group) < 2:
             continue
         for row in group:
-            if row['location'] != 'RoW' or original_production_volume(row):
+            if (row['location'] != 'RoW'
+                    or original_production_volume(row)
+                    or row.get('code') in hard_linked):
                 continue
             purge.append(row)
             logger.info({
-- 
2.43.0


From 6490cdac971eb9850743e49158d9c14b5e67e8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:14 +0000
Subject: [PATCH 19/43] fix: subtract hard linked volumes of waste treatment
 activities instead of adding them

---
 ocelot/transformations/activity_links.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/activity_links.py b/ocelot/transformations/activity_links.py
index d485305..df6a5b5 100644
--- a/ocelot/transformations/activity_links.py
+++ b/ocelot/transformations/activity_links.py
@@ -139,8 +139,9 @@ def add_hard_linked_production_volumes(data):
             # only have a relative amount. But this datasets could be
             # multioutput. So to get the absolute amount of PV subtracted, we
             # need to translate relative to absolute amount. This value does
-            # this in the `ds` frame of reference
-            scale = get_biggest_pv_to_exchange_ratio(ds)
+            # this in the `ds` frame of reference. Need ``abs`` because waste
+            # treatment has negative production amounts
+            scale = abs(get_biggest_pv_to_exchange_ratio(ds))
 
             message = "Subtracting activity link: {:.4g} (out of {:.4g}) from {} | {}"
             detailed.info({
-- 
2.43.0


From 65e55e8d1738191182fe3c5dcf9d543b84984286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:57 +0000
Subject: [PATCH 20/43] fix: convert power() with expressions as arguments, and
 inside of if()

---
 .../parameterization/python_compatibility.py  | 57 ++++++++++++-------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..131c6dd 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -35,9 +35,7 @@ RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
-COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
-
-POWER_RE = re.compile("power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)")
+POWER_BEGINNING = re.compile("power\(")
 
 
 def find_if_boundaries(string):
@@ -68,18 +66,27 @@ def find_if_boundaries(string):
     raise ValueError(message.format(stack[0], string))
 
 
+def split_arguments(substring):
+    """Split the arguments of the function call ``substring``, e.g. ``power(a;b)``.
+
+    Semicolons in nested function calls don't separate arguments."""
+    start, end = find_if_boundaries(substring)
+    arguments, depth = [""], 0
+    for character in substring[start:end]:
+        depth += {"(": 1, ")": -1}.get(character, 0)
+        if character == ";" and not depth:
+            arguments.append("")
+        else:
+            arguments[-1] += character
+    return arguments
+
+
 def replace_if_statement(substring):
     """Replace an ``if(a;b;c)`` clause. ``substring`` must contain the if clause exactly."""
-    match = COMPLETE_IF.search(substring)
-    match_string = match.group(0)
-    condition, if_true, if_false = match.groups()
+    condition, if_true, if_false = split_arguments(substring)
     if if_true == if_false:
-        replacement = "({})".format(if_true.strip())
-    else:
-        replacement = "(({}) if ({}) else ({}))".format(
-            if_true, condition, if_false
-        )
-    return substring.replace(match_string, replacement)
+        return "({})".format(if_true.strip())
+    return "(({}) if ({}) else ({}))".format(if_true, condition, if_false)
 
 
 def find_replace_nested_if_statements(ds, line):
@@ -116,17 +123,29 @@ def find_if_clause(ds, string):
         return string
 
 
+def as_number(string):
+    """Convert ``string`` to a number, if possible, to remove e.g. leading zeros."""
+    try:
+        return float(string)
+    except ValueError:
+        return string
+
+
 def find_power_clause(ds, string):
-    while POWER_RE.search(string):
-        match = POWER_RE.search(string)
-        match_string = match.group(0)
-        as_numbers = [float(x) for x in match.groups()]
-        replacement = "(({})**({}))".format(*as_numbers)
+    """Reformat clauses that use ``power(base;exponent)`` syntax."""
+    match = POWER_BEGINNING.search(string)
+    while match:
+        start = match.start()
+        end = start + find_if_boundaries(string[start:])[1] + 1
+        replacement = "(({})**({}))".format(
+            *[as_number(x) for x in split_arguments(string[start:end])]
+        )
         logger.info({
             'type': 'table element',
-            'data': (ds['name'], '', match_string, replacement)
+            'data': (ds['name'], '', string[start:end], replacement)
         })
-        string = string.replace(match_string, replacement)
+        string = string[:start] + replacement + string[end:]
+        match = POWER_BEGINNING.search(string)
     return string
 
 
-- 
2.43.0


From 6ba0cfb459e55eb0095b1166a6810b84d24c0bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:28 +0000
Subject: [PATCH 21/43] fix: replace reserved words in formulas only as whole
 words, and inside of expressions

---
 .../parameterization/python_compatibility.py  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 131c6dd..11c4e59 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,11 +27,11 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
-                     for word in RESERVED_WORDS]
+# Reserved words that can be part of a formula, e.g. after replacing ``if(a;b;c)``
+OPERATORS = {"and", "else", "False", "if", "in", "is", "None", "not", "or", "True"}
 
-RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
+RESERVED_WORDS_RE = [(word, re.compile("(?<![a-zA-Z0-9_]){}(?![a-zA-Z0-9_])".format(word)))
+                     for word in sorted(RESERVED_WORDS)]
 
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
@@ -213,17 +213,17 @@ def get_ast_names(string):
 def check_and_fix_formula(ds, string):
     """Check if the formula is usable in ``asteval``.
 
-    First, check to make sure that the formula doesn't start with a reserved word that would be valid python but wouldn't produce meaningful results. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable.
+    First, replace all reserved words which would be valid python but wouldn't produce meaningful results, at the start of the formula or anywhere if they can't be operators. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable.
 
-    Next, we check if the formula is parsable. If it isn't, we search for reserved words in the formula, using a regular expression like ``[^a-zA-Z_]?yield[^a-zA-Z_]?``. The regular expression is necessary to avoid find reserved words inside longer variable names like ``yield_management``, which are valid and should be left alone.
+    Next, we check if the formula is parsable. If it isn't, we replace all reserved words. Reserved words inside longer variable names like ``yield_management`` are valid and should be left alone.
 
     In either case, if reserved words are found, they are replaced with their uppercase equivalents.
 
     If the formula can't be repaired, it is returned in its original form; otherwise the new formula is returned."""
     updated = deepcopy(string)
-    for word, reg_exp in RESERVED_WORDS_STARTING:
-        if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
+    for word, reg_exp in RESERVED_WORDS_RE:
+        if reg_exp.match(updated) or (word not in OPERATORS and reg_exp.search(updated)):
+            updated = reg_exp.sub(word.upper(), updated)
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], word, string)
@@ -236,7 +236,7 @@ def check_and_fix_formula(ds, string):
         found = []
         for word, reg_exp in RESERVED_WORDS_RE:
             if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
+                updated = reg_exp.sub(word.upper(), updated)
                 found.append(word)
         try:
             get_ast_names(updated)
-- 
2.43.0


From 9c458d039d36891dcb7f1df1409050c96b8931ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:36 +0000
Subject: [PATCH 22/43] fix: don't add the exponent for percentages to variable
 names

---
 .../transformations/parameterization/python_compatibility.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 11c4e59..db81d47 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -8,6 +8,9 @@ import re
 
 logger = logging.getLogger('ocelot')
 
+# Percentage of a variable, like ``foo%``
+PERCENT_RE = re.compile(r"\b([a-zA-Z_]\w*)%")
+
 # TODO: A more elegant solution would probably use pyparsing
 # for all this cleanup, etc., but this is a whole new and
 # difficult domain of knowledge.
@@ -155,6 +158,7 @@ def fix_math_formulas(data):
         for exc in iterate_all_parameters(ds):
             if 'formula' not in exc:
                 continue
+            exc['formula'] = PERCENT_RE.sub(r"(\1*1e-2)", exc['formula'])
             for bad, good in KNOWN_MATH_SUBSTITUTIONS:
                 if bad in exc['formula']:
                     logger.info({
-- 
2.43.0


From d638fc1b4e455a5e1f61ad1476ec57632260c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:56 +0000
Subject: [PATCH 23/43] fix: don't delete formulas with leading whitespace

---
 ocelot/transformations/parameterization/python_compatibility.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index db81d47..5e21a7d 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -158,6 +158,8 @@ def fix_math_formulas(data):
         for exc in iterate_all_parameters(ds):
             if 'formula' not in exc:
                 continue
+            # Leading whitespace is unexpected indentation in python
+            exc['formula'] = exc['formula'].lstrip()
             exc['formula'] = PERCENT_RE.sub(r"(\1*1e-2)", exc['formula'])
             for bad, good in KNOWN_MATH_SUBSTITUTIONS:
                 if bad in exc['formula']:
-- 
2.43.0


From f32ae300e3dfce28227f5bd8068d942879f4d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:05 +0000
Subject: [PATCH 24/43] fix: raise an error instead of setting amounts to None
 if formulas can't be evaluated

---
 ocelot/transformations/parameterization/recalculation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index ac58a92..c93e9b7 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -26,12 +26,14 @@ def extract_named_parameters(dataset):
 
 
 def evaluate_formula(interpreter, formula):
-    """Evaluate ``formula`` using ``interpreter``. Division by zero evaluates to zero.
+    """Evaluate ``formula`` using ``interpreter``. Division by zero evaluates to zero; raises ``ParameterError`` for other errors.
 
     ``asteval`` doesn't raise errors, but stores them in ``interpreter.error``."""
     value = interpreter(formula)
     if any(err.exc is ZeroDivisionError for err in interpreter.error):
         return 0
+    elif interpreter.error:
+        raise ParameterError("Can't evaluate formula: {}".format(formula))
     return value
 
 
-- 
2.43.0


From be3c7a7eeab15b44dc1803f6946aad038d376bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:46 +0000
Subject: [PATCH 25/43] fix: log datasets with formulas that reference
 themselves

---
 ocelot/transformations/parameterization/recalculation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index c93e9b7..311b228 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -3,7 +3,7 @@ from ..uncertainty import get_uncertainty_class
 from ..utils import iterate_all_parameters, iterate_all_uncertainties
 from asteval import Interpreter
 from bw2parameters import ParameterSet
-from bw2parameters.errors import ParameterError, DuplicateName
+from bw2parameters.errors import ParameterError, ValidationError
 import logging
 
 logger = logging.getLogger('ocelot')
@@ -96,8 +96,7 @@ def recalculate_all_parameterized_datasets(data):
     for ds in data:
         try:
             recalculate(ds)
-        except (ParameterError, ZeroDivisionError,
-                TypeError, DuplicateName) as E:
+        except (ValidationError, ZeroDivisionError, TypeError) as E:
             logger.info({
                 'type': 'table element',
                 'data': (
-- 
2.43.0


From 70428d80a82a275bd995ffc9cedc58cfeae45f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:07 +0000
Subject: [PATCH 26/43] fix: replace implicit references to properties

---
 .../parameterization/implicit_references.py   | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/ocelot/transformations/parameterization/implicit_references.py b/ocelot/transformations/parameterization/implicit_references.py
index 560738f..1d1ec46 100644
--- a/ocelot/transformations/parameterization/implicit_references.py
+++ b/ocelot/transformations/parameterization/implicit_references.py
@@ -22,6 +22,14 @@ def get_production_volume_reference(formula):
     return [(x.group(0), x.group('uuid')) for x in re.finditer(formula)]
 
 
+def get_property_reference(formula):
+    """Return list of ``(full_reference_strings, exchange uuid, property uuid)`` from string ``formula``.
+
+    Finds ``Ref(`` implicit variables."""
+    re = REFERENCE_REGULAR_EXPRESSIONS['property']
+    return [(x.group(0), x.group('first'), x.group('second')) for x in re.finditer(formula)]
+
+
 def find_exchange_or_parameter_by_id(dataset, uuid):
     """Find exchange or parameter in ``dataset`` with id ``uuid``.
 
@@ -47,6 +55,18 @@ def find_production_volume_by_id(dataset, uuid):
     raise ValueError("Exchange id {} not found in dataset".format(uuid))
 
 
+def find_property_by_id(dataset, exchange_uuid, uuid):
+    """Find property with id ``uuid`` of the exchange with id ``exchange_uuid`` in ``dataset``.
+
+    Raises ``ValueError`` if not found in dataset."""
+    for exc in dataset['exchanges']:
+        if exc['id'] == exchange_uuid:
+            for prop in exc.get('properties', []):
+                if prop['id'] == uuid:
+                    return prop
+    raise ValueError("Property id {} not found in exchange {}".format(uuid, exchange_uuid))
+
+
 def replace_implicit_references(data):
     """Replace ``Ref(`` with actual variables.
 
@@ -82,6 +102,21 @@ def replace_implicit_references(data):
                     'data': (ds['name'], string, variable)
                 })
                 obj['formula'] = obj['formula'].replace(string, variable)
+
+            for string, exc_uuid, uuid in get_property_reference(obj['formula']):
+                reference = find_property_by_id(ds, exc_uuid, uuid)
+                if 'variable' in reference:
+                    variable = reference['variable']
+                else:
+                    variable = "ref_property_replacement_{}_{}".format(
+                        exc_uuid.replace("-", ""), uuid.replace("-", "")
+                    )
+                    reference['variable'] = variable
+                logger.info({
+                    'type': 'table element',
+                    'data': (ds['name'], string, variable)
+                })
+                obj['formula'] = obj['formula'].replace(string, variable)
     return data
 
 replace_implicit_references.__table__ = {
-- 
2.43.0


From b416ac8fe4ff1ee8278b846b69fc84fba83b1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:10 +0000
Subject: [PATCH 27/43] fix: delete formulas which are statements instead of
 expressions

---
 ocelot/transformations/parameterization/python_compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 5e21a7d..1629f8a 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -210,7 +210,7 @@ def get_ast_names(string):
     """Returns symbol names from an AST node"""
     finder = NameFinder()
     try:
-        finder.generic_visit(ast.parse(string))
+        finder.generic_visit(ast.parse(string, mode="eval"))
     except:
         raise UnparsableFormula
     return finder.names
-- 
2.43.0


From d65f7f696a6bb0e7fd4b25c2bd5dbd47e04b7cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:44 +0000
Subject: [PATCH 28/43] fix: strip whitespace of variable names of properties

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..6023b04 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -104,7 +104,7 @@ def extract_property(prop):
     if hasattr(prop, "uncertainty"):
         data['uncertainty'] = extract_uncertainty(prop.uncertainty)
     if prop.get("variableName"):
-        data['variable'] = prop.get("variableName")
+        data['variable'] = prop.get("variableName").strip()
     if prop.get("mathematicalRelation"):
         data['formula'] = prop.get("mathematicalRelation").strip()
     return data
-- 
2.43.0


From 888c8219dad3af458ac5585561e1c9137fb40e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:49 +0000
Subject: [PATCH 29/43] fix: ignore XML comments in ecospold2 files

---
 ocelot/io/extract_ecospold2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index 6023b04..287e796 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -201,9 +201,10 @@ def extract_ecospold2_dataset(elem, filepath):
 
 
 def generic_extractor(filepath):
+    parser = objectify.makeparser(remove_comments=True, remove_pis=True)
     with open(filepath, encoding='utf8') as f:
         try:
-            root = objectify.parse(f).getroot()
+            root = objectify.parse(f, parser).getroot()
             data = [extract_ecospold2_dataset(child, filepath)
                     for child in root.iterchildren()]
         except:
-- 
2.43.0


From 33a43d066fb7f18313395b6d141a9beb3e7987bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:49 +0000
Subject: [PATCH 30/43] fix: allow empty directories when extracting without
 multiprocessing

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index 287e796..9837f19 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -244,7 +244,7 @@ def extract_ecospold2_directory(dirpath, use_mp=True):
         print("Extracted {} undefined datasets in {:.1f} seconds".format(len(data), time() - start))
     else:
         data = [generic_extractor(fp)
-                for fp in pyprind.prog_bar(filelist)]
+                for fp in (pyprind.prog_bar(filelist) if filelist else [])]
 
     # Unroll lists of lists
     return [y for x in data for y in x]
-- 
2.43.0


From c2470c7656f9c5c6c5c1a94c179f9bf22fd14bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:55 +0000
Subject: [PATCH 31/43] fix: check hidden .spold files for changes, as they are
 extracted

---
 ocelot/filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 1061f8f..d7868e2 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -101,7 +101,8 @@ def check_cache_directory(data_path):
         os.stat(data_path).st_mtime,
         max(
             (os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))),
+            filter(lambda x: not x.startswith(".") or x.lower().endswith(".spold"),
+                   os.listdir(data_path))),
             default=0
         )
     ])
-- 
2.43.0


From 678f7a47a256aa527a2d1fc0ad429ac20c835673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:37 +0000
Subject: [PATCH 32/43] fix: log consequential transformations to the report
 logger

The root logger is not written to the log of a model run, so the tables of these functions stayed empty.
---
 ocelot/transformations/consequential/constrained_markets.py | 6 ++++--
 ocelot/transformations/consequential/technology_levels.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e6d7fcc 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount and formula of an exchange"""
@@ -58,7 +60,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -96,7 +98,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..c8f9b23 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
-- 
2.43.0


From c65de9a6cdc949abb58b23f5c66059513eef6eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:37 +0000
Subject: [PATCH 33/43] fix: allow to follow a dataset by its complete filepath

Datasets are selected by their filepath, so a path is a valid follow string, but it can't be part of the file name of the results.
---
 ocelot/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index d7868e2..483e251 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -182,7 +182,7 @@ def save_specific_dataset(output_dir, index, data, follow, func_name):
     dump_fp = os.path.join(
         output_dir,
         "follow",
-        "{}.{}.pickle".format(index, follow)
+        "{}.{}.pickle".format(index, os.path.basename(follow))
     )
     with open(dump_fp, "wb") as f:
         pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 02a49fd4683242af6dd2eac934ba5153ee0dd49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:58 +0000
Subject: [PATCH 34/43] fix: column headings of switched technology levels

---
 ocelot/transformations/consequential/technology_levels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index c8f9b23..ebab1a9 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -41,7 +41,7 @@ def switch_undefined_to_current(data):
 
 switch_undefined_to_current.__table__ = {
     'title': 'Switch all `undefined` activity technology levels to `current`',
-    'columns': ["Reference product", "Number of datasets"]
+    'columns': ["Activity name", "Reference product", "Location"]
 }
 
 
-- 
2.43.0


From f0bc13048e00e850bcb2042296e50ed762240fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:58 +0000
Subject: [PATCH 35/43] fix: cleanup deletes only model runs

OCELOT_OUTPUT can be any directory; other directories in it were deleted as well.
---
 ocelot/io/cleanup.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ocelot/io/cleanup.py b/ocelot/io/cleanup.py
index 460e776..1a49f41 100644
--- a/ocelot/io/cleanup.py
+++ b/ocelot/io/cleanup.py
@@ -1,9 +1,13 @@
 # -*- coding: utf-8 -*-
 from ..filesystem import get_output_directory
 import os
+import re
 import shutil
 import time
 
+# Model runs are stored in directories named after their report id
+MODEL_RUN = re.compile('[0-9a-f]{32}')
+
 
 def cleanup_data_directory():
     base_dir = get_output_directory()
@@ -12,7 +16,7 @@ def cleanup_data_directory():
     print("\nCleaning up data directory {}".format(base_dir))
     for report in os.listdir(base_dir):
         dirpath = os.path.join(base_dir, report)
-        if not os.path.isdir(dirpath):
+        if not MODEL_RUN.fullmatch(report) or not os.path.isdir(dirpath):
             continue
         created = os.path.getctime(dirpath)
         if created < now - one_week:
-- 
2.43.0


From 72d4538d65c3fb19e4c524decd4f95b8e2490a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 36/43] fix: supply market groups in the consequential model

---
 ocelot/transformations/consequential/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 7c001fd..b3eae5c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -39,6 +39,7 @@ link_markets_by_technology_level = Collection(
                                       to_type="market group"),
     partial(update_market_production_volumes, kind='market group'),
     allocate_all_market_suppliers,
+    partial(allocate_all_market_suppliers, kind='market group'),
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
-- 
2.43.0


From 944f936117631dc1b12176ba64c1267e003ae614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:34 +0000
Subject: [PATCH 37/43] fix: codes of reference products in the consequential
 model

---
 ocelot/transformations/consequential/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index b3eae5c..28fc04c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -3,6 +3,7 @@ from ...collection import Collection
 from ..identifying import add_unique_codes
 from ..locations import (
     actualize_activity_links,
+    add_reference_product_codes,
     add_suppliers_to_markets,
     allocate_all_market_suppliers,
     assign_fake_pv_to_confidential_datasets,
@@ -43,5 +44,6 @@ link_markets_by_technology_level = Collection(
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
+    add_reference_product_codes,
     log_and_delete_unlinked_exchanges,
 )
-- 
2.43.0


From 11c9ad0e6870f2b8fc454a718a36ce97b2abbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:58 +0000
Subject: [PATCH 38/43] fix: flip uncertainty of constrained exchanges together
 with the amount

---
 ocelot/transformations/consequential/constrained_markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index e6d7fcc..428ad80 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from ... import toolz
+from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
@@ -7,8 +8,8 @@ logger = logging.getLogger('ocelot')
 
 
 def flip_exchange(exc):
-    """Flip amount and formula of an exchange"""
-    exc['amount'] = -1 * exc['amount']
+    """Flip amount, uncertainty and formula of an exchange"""
+    scale_exchange(exc, -1)
     if 'formula' in exc:
         exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return exc
-- 
2.43.0


From bb0c372dcdba6e9a1c3ef5e609a84b660604e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 39/43] fix: list usage options with ocelot-cli --list

---
 ocelot/bin/ocelot_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocelot/bin/ocelot_cli.py b/ocelot/bin/ocelot_cli.py
index 91c8ece..361a5e7 100644
--- a/ocelot/bin/ocelot_cli.py
+++ b/ocelot/bin/ocelot_cli.py
@@ -63,6 +63,8 @@ def main():
             )
         elif args['cleanup']:
             cleanup_data_directory()
+        elif args['--list']:
+            print(__doc__)
         else:
             raise ValueError
     except KeyboardInterrupt:
-- 
2.43.0


From 705195a3a9c3c430d00484836d072296369a4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 40/43] fix: allow the minimum of gamma distributions in the
 internal format

---
 docs/data_format.rst           | 1 +
 ocelot/io/validate_internal.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/docs/data_format.rst b/docs/data_format.rst
index a59a45a..10d69c4 100644
--- a/docs/data_format.rst
+++ b/docs/data_format.rst
@@ -237,6 +237,7 @@ The uncertainty distributions themselves have distribution-specific fields:
     }, required=True)
 
     valid_gamma = Schema({
+        'minimum': float,
         'pedigree matrix': valid_pedigree_matrix,
         'scale': float,
         'shape': float,
diff --git a/ocelot/io/validate_internal.py b/ocelot/io/validate_internal.py
index 7e23507..6fa96b4 100644
--- a/ocelot/io/validate_internal.py
+++ b/ocelot/io/validate_internal.py
@@ -73,6 +73,7 @@ valid_beta = Schema({
 }, required=True)
 
 valid_gamma = Schema({
+    'minimum': float,
     'pedigree matrix': valid_pedigree_matrix,
     'scale': float,
     'shape': float,
-- 
2.43.0


From 96c25d44b692c3bd95896875fc8f35ac770ea299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 41/43] fix: allow empty directories when validating

---
 ocelot/io/validate_ecospold2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/io/validate_ecospold2.py b/ocelot/io/validate_ecospold2.py
index 59a96d9..103fa2c 100644
--- a/ocelot/io/validate_ecospold2.py
+++ b/ocelot/io/validate_ecospold2.py
@@ -25,7 +25,7 @@ def validate_directory_against_xsd(dirpath, schema):
     errors = []
     ecospold2_schema = etree.XMLSchema(etree.parse(open(schema)))
 
-    for fp in pyprind.prog_bar(filelist):
+    for fp in (pyprind.prog_bar(filelist) if filelist else []):
         file = etree.parse(open(fp))
         if not ecospold2_schema.validate(file):
             errors.append(os.path.basename(fp))
@@ -40,7 +40,7 @@ def validate_directory_against_xsd(dirpath, schema):
 def validate_directory(dirpath):
     data, errors = extract_directory(dirpath, False), {}
     print("Validating datasets:")
-    for ds in pyprind.prog_bar(data):
+    for ds in (pyprind.prog_bar(data) if data else []):
         try:
             dataset_schema(ds)
         except Invalid as err:
-- 
2.43.0


From be78ae44d83e3219203cb3f60ee2c53c9aaba31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:25 +0000
Subject: [PATCH 42/43] fix: treat ocelot-cli -l like --list

---
 ocelot/bin/ocelot_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/bin/ocelot_cli.py b/ocelot/bin/ocelot_cli.py
index 361a5e7..16c13be 100644
--- a/ocelot/bin/ocelot_cli.py
+++ b/ocelot/bin/ocelot_cli.py
@@ -23,7 +23,7 @@ Usage:
   ocelot-cli --version
 
 Options:
-  --list              List the updates needed, but don't do anything
+  -l --list           List the updates needed, but don't do anything
   --noshow            Don't open HTML report in new web browser tab
   --save=<strategy>   Strategy for which intermediate results to save.
   --follow=<filename> Filename to follow during system model execution
-- 
2.43.0


From 6dd1c9b68a110ba7473c58e50885109e87d779cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:22 +0000
Subject: [PATCH 43/43] fix: allow concurrent model runs to create the same
 directory

---
 ocelot/filesystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 483e251..d46adc7 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -38,7 +38,7 @@ def safe_filename(string):
 def create_dir(dirpath):
     """Create directory tree to `dirpath`; ignore if already exists"""
     if not os.path.isdir(dirpath):
-        os.makedirs(dirpath)
+        os.makedirs(dirpath, exist_ok=True)
     return dirpath
 
 
-- 
2.43.0

