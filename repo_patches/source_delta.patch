From fe044039e903584973cd13ff04c8d853db3c2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:16 +0000
Subject: [PATCH 01/16] fix: pack columns with very large values in enough bits

The number of bits of a column was computed with a floating-point log2, which rounds
down for maxima above 2 ** 49 (values were lost) and failed above 2 ** 63.
---
 wildwood/preprocessing/features_bitarray.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wildwood/preprocessing/features_bitarray.py b/wildwood/preprocessing/features_bitarray.py
index b2db38e..c73cad8 100644
--- a/wildwood/preprocessing/features_bitarray.py
+++ b/wildwood/preprocessing/features_bitarray.py
@@ -15,7 +15,7 @@ For familiarity with bitwise operations:
 https://en.wikipedia.org/wiki/Bitwise_operation
 """
 
-from math import ceil, floor
+from math import ceil
 import numpy as np
 from numba import jit, void, uint8, int8, uint16, int16, uint32, int32, uint64, int64
 from numba.experimental import jitclass
@@ -127,9 +127,16 @@ class FeaturesBitArray(object):
                 self.n_values_in_words[j] = 64
                 self.bitmasks[j] = 1
             else:
-                self.n_bits[j] = ceil(np.log2(max_value + 1))
-                self.n_values_in_words[j] = floor(64 / self.n_bits[j])
-                self.bitmasks[j] = (1 << self.n_bits[j]) - 1
+                # Integer arithmetic only: a floating-point log2 rounds down for
+                # values larger than 2 ** 49
+                n_bits = 1
+                bitmask = np.uint64(1)
+                while bitmask < max_value:
+                    bitmask = (bitmask << np.uint64(1)) | np.uint64(1)
+                    n_bits += 1
+                self.n_bits[j] = n_bits
+                self.n_values_in_words[j] = 64 // n_bits
+                self.bitmasks[j] = bitmask
 
             n_words = ceil(n_samples / self.n_values_in_words[j])
             offset += n_words
-- 
2.43.0


From 4eb11401445013ba736ad11ca251575d2491bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:16 +0000
Subject: [PATCH 02/16] fix: do not write outside the bit array when filling an
 empty column

---
 wildwood/preprocessing/features_bitarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wildwood/preprocessing/features_bitarray.py b/wildwood/preprocessing/features_bitarray.py
index c73cad8..af2c559 100644
--- a/wildwood/preprocessing/features_bitarray.py
+++ b/wildwood/preprocessing/features_bitarray.py
@@ -182,6 +182,9 @@ def _features_bitarray_fill_column(col_bitarray, n_bits, n_values_in_word, col):
         contain only contiguous non-negative integers {0, 1, 2, ..., max_value}
         coming from binning of both categorical and continuous columns.
     """
+    if col.shape[0] == 0:
+        return
+
     for i, x_ij in enumerate(col):
         word = i // n_values_in_word
         pos_in_word = i % n_values_in_word
-- 
2.43.0


From bc7c2af4567267bc4a288b2c5d3e24aae7de8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:16 +0000
Subject: [PATCH 03/16] fix: reserve a bin for the missing values of object
 arrays

The missing bin did not fit in the bits reserved for the column, so that missing
values (and their neighbours in the packed words) were decoded as other categories.
---
 wildwood/preprocessing/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 5f41b93..54ae016 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -386,7 +386,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 has_missing_values = np.isnan(X).any(axis=0)
             else:
                 # Otherwise, there is no missing value
-                has_missing_values = np.zeros(n_features, dtype=np.bool_)
+                has_missing_values = pd.isna(X).any(axis=0)
 
             for col_idx in range(n_features):
                 col = X[:, col_idx]
-- 
2.43.0


From fbf8bbcb32abfe3ab53f682061d85a23e01504b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 04/16] fix: encode every column of a dataframe whose column
 names are not unique

Columns with the same name overwrote each other, so that some columns of the bit array
were never filled and others were filled with another column's values.
---
 wildwood/preprocessing/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index 54ae016..db6edab 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -374,7 +374,7 @@ class Encoder(TransformerMixin, BaseEstimator):
                 max_values[col_idx] = col_n_bins - 1
 
                 # Save the eventually transformed column (if categorical)
-                X_dict[col_name] = col
+                X_dict[col_idx] = col
         else:
             # First, we need to know if some columns from X have unknown categories,
             # since this might increase by one the number of bins required. Note that
@@ -435,7 +435,7 @@ class Encoder(TransformerMixin, BaseEstimator):
 
         # And to loop again over the columns to fill it
         if is_dataframe:
-            for col_idx, (col_name, col) in enumerate(X_dict.items()):
+            for col_idx, col in X_dict.items():
                 if is_categorical_[col_idx]:
                     col_categories_at_fit = categories[col_idx]
                     # Use the same categories as the ones used in fit and replace
-- 
2.43.0


From 0a10655293d7829f3b101e6a29fdc0f5de528167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 05/16] fix: reject cat_min_categories values of a wrong type

---
 wildwood/preprocessing/encoder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wildwood/preprocessing/encoder.py b/wildwood/preprocessing/encoder.py
index db6edab..59469d2 100644
--- a/wildwood/preprocessing/encoder.py
+++ b/wildwood/preprocessing/encoder.py
@@ -755,3 +755,8 @@ class Encoder(TransformerMixin, BaseEstimator):
                 )
             else:
                 self._cat_min_categories = val
+        else:
+            raise ValueError(
+                f"cat_min_categories should be an int > 3 or either "
+                f"'log' or 'sqrt'; {val} was given"
+            )
-- 
2.43.0


From 3980289e1c35cafa72f876961f2ba5e83eb0b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 06/16] fix: raise the errors about invalid random_state

---
 wildwood/forest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 79fe5e1..e4a6776 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -865,9 +865,11 @@ class ForestBase(BaseEstimator):
                 if val >= 0:
                     self._random_state = val
                 else:
-                    ValueError("random_state must be >= 0")
+                    raise ValueError("random_state must be >= 0")
             else:
-                ValueError("random_state must be either None or an integer number")
+                raise ValueError(
+                    "random_state must be either None or an integer number"
+                )
 
     @property
     def verbose(self):
-- 
2.43.0


From 1c94a4d2f56ba240ae611586d6e8b21b4d314925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 07/16] fix: do not modify the user's sample_weight when
 class_weight is used

---
 wildwood/forest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index e4a6776..8ec4294 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -332,7 +332,10 @@ class ForestBase(BaseEstimator):
             if multiclass == "multinomial":
                 if class_weight is not None:
                     expanded_class_weight = compute_sample_weight(class_weight, y)
-                    sample_weight_ *= expanded_class_weight
+                    # Not in-place: this can be the array given by the user
+                    sample_weight_ = (sample_weight_ * expanded_class_weight).astype(
+                        np.float32
+                    )
 
             else:
                 if class_weight is not None:
-- 
2.43.0


From a7ac101a400de11133b96c0b4686784fe37c222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 08/16] fix: use the categorical_features given to the
 constructor

---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index 8ec4294..f990c5d 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -362,7 +362,7 @@ class ForestBase(BaseEstimator):
 
         self._generate_random_states()
 
-        is_categorical = get_is_categorical(categorical_features, n_features)
+        is_categorical = get_is_categorical(self.categorical_features, n_features)
 
         encoder = Encoder(
             max_bins=self.max_bins,
-- 
2.43.0


From c7f600d2c41073ddde5118fcc59b8dc6a5feee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 09/16] fix: make the subsampling used for binning reproducible

With more rows than subsample, the rows used to compute the binning thresholds were
drawn from the global random state whatever random_state was.
---
 wildwood/forest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index f990c5d..e4bc58d 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -370,6 +370,7 @@ class ForestBase(BaseEstimator):
             is_categorical=is_categorical,
             cat_min_categories=self.cat_min_categories,
             handle_unknown=self.handle_unknown,
+            random_state=self.random_state,
         )
 
         encoder.fit(X)
-- 
2.43.0


From f9834f902476adcf3ecca29a1b4e59b9559ac28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 10/16] fix: ignore candidate splits leaving no training weight
 in a child

With zero (or very small) sample weights, fit failed with a ZeroDivisionError.
---
 wildwood/_split.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index f3942c8..e1766e4 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -538,6 +538,10 @@ def try_feature_order_for_classifier_split(
         ):
             break
 
+        # Impurities are not defined when one of the childs has no training weight
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         # TODO: we shall pass the child impurity function as an argument to handle
         #  different impurities
         criterion = tree_context.criterion
@@ -939,6 +943,10 @@ def find_best_split_regressor_along_feature(
         ):
             break
 
+        # Impurities are not defined when one of the childs has no training weight
+        if w_samples_train_left <= 0.0 or w_samples_train_right <= 0.0:
+            continue
+
         criterion = tree_context.criterion
         # Get the impurities of the left and right childs
         impurity_left, impurity_right = apply_childs_impurity_function_reg(
-- 
2.43.0


From 5ed95a550d83316570f0eb257d408fef1b0ec15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 11/16] fix: unpickle forests on which lighten was called

---
 wildwood/tree.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 4550e65..8c99439 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -186,13 +186,19 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
                 self._tree_classifier_context = None
             if hasattr(self, "_tree_classifier"):
                 self._tree_classifier.nodes = self._tree_classifier.nodes[:self._tree_classifier.node_count]
+                self._tree_classifier.y_pred = self._tree_classifier.y_pred[:self._tree_classifier.node_count]
+                self._tree_classifier.capacity = self._tree_classifier.node_count
                 self._tree_classifier.bin_partitions = self._tree_classifier.bin_partitions[:self._tree_classifier.bin_partitions_end]
+                self._tree_classifier.bin_partitions_capacity = self._tree_classifier.bin_partitions_end
         else:
             if hasattr(self, "_tree_regressor_context"):
                 self._tree_regressor_context = None
             if hasattr(self, "_tree_regressor"):
                 self._tree_regressor.nodes = self._tree_regressor.nodes[:self._tree_regressor.node_count]
+                self._tree_regressor.y_pred = self._tree_regressor.y_pred[:self._tree_regressor.node_count]
+                self._tree_regressor.capacity = self._tree_regressor.node_count
                 self._tree_regressor.bin_partitions = self._tree_regressor.bin_partitions[:self._tree_regressor.bin_partitions_end]
+                self._tree_regressor.bin_partitions_capacity = self._tree_regressor.bin_partitions_end
 
 
 class TreeClassifier(ClassifierMixin, TreeBase):
@@ -477,7 +483,10 @@ def serialize(obj):
 
 
 def unserialize(key, val):
-    if key == "_tree_classifier":
+    if val is None:
+        # Nothing to rebuild (unfitted tree, or context dropped by lighten)
+        return None
+    elif key == "_tree_classifier":
         n_features = val["n_features"]
         n_classes = val["n_classes"]
         random_state = val["random_state"]
-- 
2.43.0


From 3b52c2710c35f4735ce10950ad43345ea674fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:22 +0000
Subject: [PATCH 12/16] fix: allow changing step after lighten was called

---
 wildwood/tree.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/wildwood/tree.py b/wildwood/tree.py
index 8c99439..a28cd7b 100644
--- a/wildwood/tree.py
+++ b/wildwood/tree.py
@@ -156,23 +156,23 @@ class TreeBase(BaseEstimator, metaclass=ABCMeta):
         if self._step != val:
             self._step = val
             if self.is_classifier:
-                if hasattr(self, "_tree_classifier_context"):
+                if self._tree_classifier_context is not None:
                     self._tree_classifier_context.step = val
-                    if self._tree_classifier_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_classifier.nodes,
-                            self._tree_classifier.node_count,
-                            val,
-                        )
+                if self._tree_classifier is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_classifier.nodes,
+                        self._tree_classifier.node_count,
+                        val,
+                    )
             else:
-                if hasattr(self, "_tree_regressor_context"):
+                if self._tree_regressor_context is not None:
                     self._tree_regressor_context.step = val
-                    if self._tree_regressor_context.aggregation:
-                        compute_tree_weights(
-                            self._tree_regressor.nodes,
-                            self._tree_regressor.node_count,
-                            val,
-                        )
+                if self._tree_regressor is not None and self.aggregation:
+                    compute_tree_weights(
+                        self._tree_regressor.nodes,
+                        self._tree_regressor.node_count,
+                        val,
+                    )
 
     def lighten(self):
         if hasattr(self, "_train_indices"):
-- 
2.43.0


From a2586eeb23f43b6a4f8a97f07215d57ea03c57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 13/16] fix: allow fitting with max_depth=None after fitting
 with a given max_depth

The largest unsigned integer does not fit in the integer type for which the
context of the trees was first compiled, so that fit raised an OverflowError
for max_depth=None as soon as a forest with an integer max_depth was fitted
in the same process.
---
 wildwood/forest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index e4bc58d..dfa67b2 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -727,7 +727,7 @@ class ForestBase(BaseEstimator):
 
     @staticmethod
     def _get_max_depth_(max_depth):
-        return np.iinfo(np.uintp).max if max_depth is None else max_depth
+        return np.iinfo(np.intp).max if max_depth is None else max_depth
 
     @property
     def min_samples_split(self):
-- 
2.43.0


From e11481b447323edbc3d5267b1ba1cae1bf48ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:42 +0000
Subject: [PATCH 14/16] fix: unpack bit-packed matrices that have no column

---
 wildwood/preprocessing/features_bitarray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/preprocessing/features_bitarray.py b/wildwood/preprocessing/features_bitarray.py
index af2c559..c650573 100644
--- a/wildwood/preprocessing/features_bitarray.py
+++ b/wildwood/preprocessing/features_bitarray.py
@@ -465,7 +465,7 @@ def features_bitarray_to_array(features_bitarray):
     X = _get_empty_matrix(
         features_bitarray.n_samples,
         features_bitarray.n_features,
-        features_bitarray.max_values.max(),
+        features_bitarray.max_values.max(initial=0),
     )
     _features_bitarray_to_array(features_bitarray, X)
     return X
-- 
2.43.0


From d02d00cba82640d447a7fbf4cbd58da3fc2ab0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:25 +0000
Subject: [PATCH 15/16] fix: categorical split ordering with a single class
 reads outside y_sum

With one class in y, the 'binary' ordering read column 1 of an array that has
only column 0.
---
 wildwood/_split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wildwood/_split.py b/wildwood/_split.py
index e1766e4..50c2b93 100644
--- a/wildwood/_split.py
+++ b/wildwood/_split.py
@@ -704,7 +704,7 @@ def find_best_split_classifier_along_feature(
                     cumsum_samples_valid_left,
                 )
         elif cat_split_strategy == SPLIT_STRATEGY_BINARY:
-            idx_sort = np.argsort(y_sum_positives[:, 1])
+            idx_sort = np.argsort(y_sum_positives[:, min(1, n_classes - 1)])
             bins_train[:] = non_empty_bins_train[idx_sort]
             try_feature_order_for_classifier_split(
                 tree_context,
-- 
2.43.0


From 87538d93c24f1440a43ea344b875636eb5b131f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 16/16] fix: reject NaN for step, max_features and dirichlet

---
 wildwood/forest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wildwood/forest.py b/wildwood/forest.py
index dfa67b2..63510f1 100644
--- a/wildwood/forest.py
+++ b/wildwood/forest.py
@@ -689,7 +689,7 @@ class ForestBase(BaseEstimator):
     def step(self, val):
         if not isinstance(val, float):
             raise ValueError("step must be a float")
-        elif val <= 0:
+        elif not val > 0:
             raise ValueError("step must be positive")
         else:
             self._step = val
@@ -795,7 +795,7 @@ class ForestBase(BaseEstimator):
             else:
                 self._max_features = val
         elif isinstance(val, float):
-            if val > 1.0 or val <= 0.0:
+            if not 0.0 < val <= 1.0:
                 raise ValueError("max_features must be <= 1.0 and > 0.0")
             else:
                 self._max_features = val
@@ -1373,7 +1373,7 @@ class ForestClassifier(ForestBase, ClassifierMixin):
         if not isinstance(val, float):
             raise ValueError("dirichlet must be a float")
         else:
-            if val < 0.0:
+            if not val >= 0.0:
                 raise ValueError("dirichlet must be positive")
             else:
                 recompute = hasattr(self, "_dirichlet") and self._dirichlet != val
-- 
2.43.0

