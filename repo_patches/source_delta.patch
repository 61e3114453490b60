From f3f7891339557fd65f6a247e72bf9e260c435690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 1/9] fix: t_test crashed on zero-variance data with current
 numpy

np.float was removed in numpy 1.24, so t_test(np.zeros(n)) raised AttributeError
instead of returning p=1.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 7271e6182cd1b086d617ae0bf3fe9e41c62c2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 2/9] fix: clip_EB discarded the error bar when the estimate is
 NaN

A NaN estimate is documented to pass the limit checks, but the NaN trivial
error bar then turned EB into NaN rather than max(EB, min_EB).
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..f4bf938 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -57,7 +57,7 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
         raise ValueError("min error bar %f too small for limits (%f, %f)" % (min_EB, lower, upper))
 
     with np.errstate(invalid="ignore"):  # expect non-finite here
-        EB_trivial = np.fmax(upper - mu, mu - lower)
+        EB_trivial = np.inf if np.isnan(mu) else np.fmax(upper - mu, mu - lower)
     assert not (min_EB > EB_trivial)  # Let NaNs pass
     EB = np.clip(EB, min_EB, EB_trivial)
     return EB
-- 
2.43.0


From ff4990949b697beabdf13a0f3b169733c67af25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 3/9] fix: loss_summary_table rejected means that round just
 outside limits

np.mean([0.1] * 3) > 0.1, so get_mean_and_EB clips it to the limit and the
exact comparison with the unclipped mean raised AssertionError.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index f4bf938..3e4f87b 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -530,7 +530,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
                     _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
             else:
                 mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
-                assert mu_ == mu
+                assert mu_ == mu or np.isclose(mu_, mu)  # mu_ clipped to limits for round off
                 if not self_comparison:  # Otherwise pval as nan
                     pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
 
-- 
2.43.0


From f32b22160ae0bf208fd06d7921ba166eed9298df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 4/9] fix: benchmarking entry points crashed with current
 joblib

The cachedir keyword of joblib.Memory was renamed to location; pass it by
position, which works for both.
---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 945ec7b0bad8c1c41ddd7428c68296367a52b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 5/9] fix: classification.JustNoise rejected bool labels

---
 mlpaper/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..2a1f63b 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,7 +642,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
-        counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
+        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
         assert self.pred.shape == (n_labels,)
-- 
2.43.0


From 4fd1cebcd39f03f36130bcb30786fe50d7af5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 6/9] fix: build_lag_df always raised TypeError on Python 3

---
 mlpaper/data_splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..063c068 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -61,7 +61,7 @@ def build_lag_df(df, n_lags, stride=1, features=None):
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From 4e544c06b9bab2b2d11ed9820c6e92abdd83d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 7/9] fix: ordered_split_series failed when frac * n_cases is
 an integer

E.g. frac=0.5 with 4 distinct values tripped its own assertion that the split
rounds up by less than one case.
---
 mlpaper/data_splitter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 063c068..5614d4b 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,8 +213,10 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
-    assert 0 <= idx  # Should never happen due to frac check earlier
+    # First case such that fraction of cases up to and including it is >= frac
+    n_cases = len(all_cases)
+    idx = int(np.searchsorted(np.arange(1, n_cases + 1) / n_cases, frac))
+    assert 0 <= idx and idx < n_cases  # Should never fail due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
     assert np.mean(all_cases <= pivotal_case) >= frac
-- 
2.43.0


From f4e217362d8839ca16f0244f1d622552a492f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 8/9] fix: TeX headers contained a tab instead of \times

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From ea498dd8d5eccb97ea21f29192cac7500627ecf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:09 +0000
Subject: [PATCH 9/9] fix: decimalize swapped mean and error for reordered
 columns

The triple was assigned by position, so a table whose columns were sorted
(error, mean, p) came back with the estimate labelled as the error bar.
---
 mlpaper/sciprint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..21b045e 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,10 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # Assign by name since columns of perf_tbl can be in any order
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0

