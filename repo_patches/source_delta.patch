From bc497d6e55674b5873de7f8781b4b4f3f82dcdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 001/125] fix: metadata of binned transformations follows the
 order of the generated columns

---
 pyforecaster/formatter.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..62138c1 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -822,21 +822,17 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
-                metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
-                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                # one entry per column, in the same order of trans_names: the lag is always the outermost level
+                bins_idx = np.arange(len(self.agg_bins) - 1)
                 if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
+                    entries = [(f, l, i) for l, i, f in product(lag_steps, bins_idx, function_names)]
                 else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                    entries = [(f, l, i) for l, f, i in product(lag_steps, function_names, bins_idx)]
+                metadata_n = pd.DataFrame([e[:2] for e in entries], columns=['function', 'lag'], index=trans_names)
+                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for _, l, i in entries]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i + 1] + l) + dt for _, l, i in entries]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From f41aa32b7f5662651a8c3ed8bfa3a8966baf70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 002/125] fix: non-nested binned transformations keep the most
 recent rows

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 62138c1..bad5f3a 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -785,7 +785,7 @@ class Transformer:
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
                                 partial_res.append(np.vstack(reducer.stats).tolist())
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
-                            d = d.shift(np.max(self.original_agg_bins)-1)
+                            d = d.reindex(d_rolled.index).shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
                             trans_names = ['{}_{}_{}_{}'.format(name, p[1], self.original_agg_bins[p[0]],
-- 
2.43.0


From 33ad34993bfd53ac1db7f2ffe51177fc8477c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 003/125] fix: do not overwrite the declared aggregation
 frequency of a transformer at the first call

---
 pyforecaster/formatter.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index bad5f3a..a25405f 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -736,10 +736,12 @@ class Transformer:
             # infer sampling time
             dt = self.dt if self.dt is not None else x[name].index.to_series().diff().median()
 
-            if self.agg_freq is None:
-                self.agg_freq = dt
-            elif isinstance(self.agg_freq, (np.int8, np.int32, np.int64, int)):
-                self.agg_freq *= dt
+            # keep self.agg_freq as declared: the sampling time could be different at the next call
+            agg_freq = self.agg_freq
+            if agg_freq is None:
+                agg_freq = dt
+            elif isinstance(agg_freq, (np.int8, np.int32, np.int64, int)):
+                agg_freq = agg_freq * dt
 
             # agg_steps = number of steps on which aggregation stats are retrieved
             # agg_time = time range on which aggregation stats are retrieved
@@ -748,7 +750,7 @@ class Transformer:
                 agg_steps = np.max(self.agg_bins)-np.min(self.agg_bins)
                 spacing_time = dt
             else:
-                agg_steps = int(pd.Timedelta(self.agg_freq) / dt)
+                agg_steps = int(pd.Timedelta(agg_freq) / dt)
                 spacing_time = dt * agg_steps if self.relative_lags else dt
 
             trans_names = [name]
@@ -756,11 +758,11 @@ class Transformer:
             if self.functions:
                 function_names = [get_fun_name(s) for s in self.functions]
                 if self.agg_bins is None:
-                    hr_agg_freq = self.agg_freq if isinstance(self.agg_freq, str) else hr_timedelta(self.agg_freq.to_timedelta64())
+                    hr_agg_freq = agg_freq if isinstance(agg_freq, str) else hr_timedelta(agg_freq.to_timedelta64())
                     trans_names = ['{}_{}_{}'.format(name, hr_agg_freq, p) for p in function_names]
 
                     if not simulate:
-                        d = d.rolling(self.agg_freq, min_periods=agg_steps).agg(self.functions)
+                        d = d.rolling(agg_freq, min_periods=agg_steps).agg(self.functions)
                         d.columns = trans_names
                 else:
                     if not simulate:
@@ -816,7 +818,7 @@ class Transformer:
 
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['lag', 'function'], index=trans_names)
 
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
 
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
@@ -829,7 +831,7 @@ class Transformer:
                 else:
                     entries = [(f, l, i) for l, f, i in product(lag_steps, function_names, bins_idx)]
                 metadata_n = pd.DataFrame([e[:2] for e in entries], columns=['function', 'lag'], index=trans_names)
-                metadata_n['aggregation_time'] = self.agg_freq
+                metadata_n['aggregation_time'] = agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
                 metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for _, l, i in entries]
                 metadata_n['end_time'] = [-dt * (self.original_agg_bins[i + 1] + l) + dt for _, l, i in entries]
-- 
2.43.0


From 577d1a826a2140bfccd31f7c2314976300e296a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 004/125] fix: normalize only the columns derived from the
 normalized target

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a25405f..2cc2f6a 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -324,7 +324,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -337,7 +337,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From d51ec791b96372551112abc36cb8f326072095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 005/125] fix: step-ahead pruning considers all the target
 transformers

---
 pyforecaster/formatter.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 2cc2f6a..52ba836 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -493,14 +493,9 @@ class Formatter:
     def prune_dataset_at_stepahead(self, df, target_col_num, metadata_features, method='periodic', period='24h', tol_period='1h', keep_last_n_lags=0, keep_last_seconds=0):
 
         # retrieve referring_time of the given sa for the target from target_transformers
-        target_start_times = []
-        target_end_times = []
-        for tt in self.target_transformers:
-            target_start_times.append(tt.metadata.iloc[target_col_num, :]['start_time'])
-            target_end_times.append(tt.metadata.iloc[target_col_num, :]['end_time'])
-
-        target_start_time = pd.to_timedelta(target_start_times[0])
-        target_end_time = pd.to_timedelta(target_end_times[0])
+        target_metadata = pd.concat([tt.metadata for tt in self.target_transformers])
+        target_start_time = pd.to_timedelta(target_metadata.iloc[target_col_num, :]['start_time'])
+        target_end_time = pd.to_timedelta(target_metadata.iloc[target_col_num, :]['end_time'])
 
         metadata = pd.concat([t.metadata for t in self.transformers])
         if method == 'periodic':
-- 
2.43.0


From a7e6a8f80dba12c090ca23f2402ec5730ad8d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 006/125] fix: accept lags in target normalizers

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 52ba836..c464c24 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -146,7 +146,7 @@ class Formatter:
         assert len(target) == 1, 'only one target can be normalized per time. If you want to normalize two targets call this method twice'
         if lags is not None:
             assert len(lags) == 1, 'only one lag is admissible for the normalization.'
-            assert np.all(lags>0), 'you cannot normalize with future values, all lags should be positive'
+            assert np.all(np.array(lags) > 0), 'you cannot normalize with future values, all lags should be positive'
 
         transformer = Transformer(target, functions=function, agg_freq=agg_freq, lags=lags, logger=self.logger,
                                   relative_lags=relative_lags, agg_bins=agg_bins, dt=self.dt, name=name)
-- 
2.43.0


From 66a320315ea953180ab0282df34f83226487ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:50 +0000
Subject: [PATCH 007/125] fix: bridges and long weekends around new year do not
 depend on the formatted period

---
 pyforecaster/formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index c464c24..bc87a05 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -92,7 +92,9 @@ class Formatter:
 
     def add_holidays(self, x, state_code='CH', **kwargs):
         self.logger.debug('Adding holidays')
-        holidays = holidays_api.country_holidays(country=state_code, years=x.index.year.unique(), **kwargs)
+        # holidays around the new year are needed to spot bridges and long weekends at the borders of the index
+        years = np.arange((x.index[0] - pd.Timedelta('3D')).year, (x.index[-1] + pd.Timedelta('3D')).year + 1)
+        holidays = holidays_api.country_holidays(country=state_code, years=years, **kwargs)
         bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
-- 
2.43.0


From d0926b317c70a6e256c50b965435390973c92967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 008/125] fix: the Kalman update applies the measurement to the
 covariance once

---
 pyforecaster/utilities.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 27050c6..4e17fa5 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -36,7 +36,6 @@ def kalman_update(x, P, y, H, R):
     S = np.dot(H, np.dot(P, H.T)) + R
     K = np.dot(P, np.dot(H.T, np.linalg.pinv(S)))
     x = x + np.dot(K, (y - np.dot(H , x)))
-    P = P - np.dot(K,np.dot(H, P))
     I_KH = np.eye(K.shape[0]) - np.dot(K, H)
     P = np.dot(I_KH,np.dot(P,I_KH.T)) + np.dot(K, np.dot(R, K.T))
     return x, P
-- 
2.43.0


From c6ad3e8dc2a56ef10be0a4ea4b37ddab5ad56054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 009/125] fix: parallel execution without ray processes all the
 chunks and keeps the columns order

---
 pyforecaster/big_data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..cf0ea9e 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -83,17 +83,17 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = np.hstack([x.columns for x in dfs])
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
+        df_indexes = dfs[0].index.append([x.index for x in dfs[1:]]) if axis==0 else dfs[0].index
 
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        res = mapper(f, [x.values for x in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
         if res.shape == df_shape:
-- 
2.43.0


From 1843352c65e751432fde1559eb48edfb5e116339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 010/125] fix: serial memory reduction does not modify the
 caller's DataFrame

---
 pyforecaster/big_data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index cf0ea9e..5023cd0 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -178,6 +178,7 @@ def reduce_mem_usage(df, parallel=True, logger=None, use_ray=True):
         else:
             df = fdf_parallel(reduce_mem_usage_np, df, axis=1, use_ray=use_ray)
     else:
+        df = df.copy(deep=False)  # do not modify the caller's DataFrame
         for col in tqdm(df.columns):
             df[col] = reduce_mem_usage_series(df[col])
 
-- 
2.43.0


From ae05056b2c40a85a993194ff7428094971cabad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 011/125] fix: bootstrap resamples positions, also for repeated
 index labels

---
 pyforecaster/stat_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index 1b77336..dd279d8 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -19,7 +19,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     assert isinstance(series, pd.Series), 'series must be a pd.Series instance, you passed {}'.format(type(series))
 
     n = len(series)
-    samples = np.random.choice(series.index, (n_sampling, n), replace=True)
+    samples = np.random.choice(n, (n_sampling, n), replace=True)
 
     sample_at = np.arange(100, n_sampling, 500).astype(int)
     history = pd.DataFrame({})
@@ -32,7 +32,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     for i, n_s in enumerate(sample_at):
         stats = []
         for s in samples[:n_s]:
-            stats.append(series.loc[s].agg(stat_fun))
+            stats.append(series.iloc[s].agg(stat_fun))
 
         if save_plots_dir:
             qqplot((stats-np.mean(stats))/np.std(stats), ax, label=n_s, c=colors(i))
-- 
2.43.0


From aa6fb8c47600abf8380d243532835e92c5e389d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 012/125] fix: bootstrap applies statistic functions to the
 whole sample

---
 pyforecaster/stat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index dd279d8..e28bba1 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -32,7 +32,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     for i, n_s in enumerate(sample_at):
         stats = []
         for s in samples[:n_s]:
-            stats.append(series.iloc[s].agg(stat_fun))
+            stats.append(stat_fun(series.iloc[s]) if callable(stat_fun) else series.iloc[s].agg(stat_fun))
 
         if save_plots_dir:
             qqplot((stats-np.mean(stats))/np.std(stats), ax, label=n_s, c=colors(i))
-- 
2.43.0


From 8b80d4091384de37eb5726207a701d1324e14f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:23 +0000
Subject: [PATCH 013/125] fix: table to tensor conversion ignores column levels
 which are not used

---
 pyforecaster/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 4e17fa5..fdd2f5c 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -14,7 +14,7 @@ def from_tensor_to_pdmultiindex(x, index, first_index, second_index):
 def convert_multiindex_pandas_to_tensor(df, zero_first=True):
     if df.columns.nlevels < 2:
         return df
-    c_shape = df.columns.levshape
+    c_shape = df.columns.remove_unused_levels().levshape
     if zero_first:
         return df.values.reshape(-1, c_shape[0], c_shape[1])
     else:
-- 
2.43.0


From 82513dddc9c84b57ff7b164da16659e76d8bbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 014/125] fix: residual quantiles of all the forecasters honour
 conditional_to_hour=False

---
 pyforecaster/forecaster.py                                 | 4 ++--
 pyforecaster/forecasting_models/gradientboosters.py        | 2 +-
 pyforecaster/forecasting_models/random_fourier_features.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..9b5eb9b 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -351,7 +351,7 @@ class LinearForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
 
@@ -409,7 +409,7 @@ class LGBForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..c82f8d4 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -168,7 +168,7 @@ class LGBMHybrid(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..1c516e1 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -354,7 +354,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
 
@@ -395,5 +395,5 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
\ No newline at end of file
-- 
2.43.0


From 1e7d184705e99eed26119e2b419b3da2355b758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 015/125] fix: refitting a model replaces its submodels instead
 of appending to them

---
 pyforecaster/forecaster.py                                 | 1 +
 pyforecaster/forecasting_models/gradientboosters.py        | 5 ++++-
 pyforecaster/forecasting_models/random_fourier_features.py | 1 +
 pyforecaster/forecasting_models/randomforests.py           | 1 +
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 9b5eb9b..4037eb5 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -390,6 +390,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index c82f8d4..291df5d 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -177,6 +178,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -195,7 +197,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # the models are already fitted, only the scenario generator has to be
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 1c516e1..9ff1166 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -94,6 +94,7 @@ class BrutalRegressor:
         if plot:
             plt.figure()
         err = y.copy().values
+        self.best_pars = []
         for i in tqdm(range(self.n_iter)):
             rand_idx = np.random.choice(x.shape[0], int(self.bootstrap_fraction*x.shape[0]), replace=True)
             best_pars = self.one_level_fit(x[rand_idx], err[rand_idx])
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..28d3c13 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -105,6 +105,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From a1b5a1c83b6b1ca7d179aaf6f1646a96c47e4a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 016/125] fix: parameters set after construction are used by
 LGBForecaster and QRF

---
 pyforecaster/forecaster.py                       | 1 +
 pyforecaster/forecasting_models/randomforests.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 4037eb5..ed7ce5e 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -390,6 +390,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.lgb_pars.update({k: getattr(self, k) for k in self.lgb_pars})
         self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 28d3c13..b50e5a9 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -101,6 +101,7 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def fit(self, x, y, sample_weight=None):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.qrf_pars.update({k: getattr(self, k) for k in self.qrf_pars if hasattr(self, k)})
         if self.parallel:
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From c4c220b622ef026a9a9da31fc139156fcc6d9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 017/125] fix: QRF passes max_depth and max_leaf_nodes to its
 forests

---
 pyforecaster/forecasting_models/randomforests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index b50e5a9..1abd900 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -71,6 +71,8 @@ class QRF(ScenarioGenerator):
 
         self.qrf_pars = {
             "n_estimators":n_estimators,
+            "max_depth": max_depth,
+            "max_leaf_nodes": max_leaf_nodes,
             "bootstrap": bootstrap,
             "oob_score": oob_score,
             "n_jobs": n_jobs,
-- 
2.43.0


From cb1655d8edb9b29d46b1ea284c9bf905e42cf3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 018/125] fix: QRF forecasts a single target, and a single
 multi-step target

---
 .../forecasting_models/randomforests.py        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 1abd900..be0d74e 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -145,14 +145,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds.reshape(len(x), -1), index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -162,19 +162,13 @@ class QRF(ScenarioGenerator):
                                         keep_last_seconds=self.keep_last_seconds,
                                         tol_period=self.tol_period, period=period)
         p = self.models[i].predict(x_i, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else 'mean')
-        if len(p.shape) == 1:
-            p = np.expand_dims(p, 1)
-        return p
+        return np.reshape(p, (len(x), -1))
 
     def predict_multi_step(self, x, quantiles='mean'):
         preds = self.multi_step_model.predict(x, quantiles)
-        if len(preds.shape) == 1:
-            preds = np.expand_dims(preds, 1)
-        if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
-        else:
-            preds = np.swapaxes(preds, 1, 2)
-        return preds
+        # (n_obs, n_steps, n_quantiles), whatever axes were squeezed by the forest
+        preds = np.reshape(preds, (len(x), self.n_multistep, -1))
+        return np.swapaxes(preds, 1, 2)
 
     @staticmethod
     def dataset_at_stepahead(df, target_col_num, metadata_features, formatter, logger, method='periodic', keep_last_n_lags=1, period="24h",
-- 
2.43.0


From ed3761d15921bf1709a3de22069e7f2ed91a88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 019/125] fix: the array form of QRF quantiles holds each
 quantile under its own target and level

---
 pyforecaster/forecasting_models/randomforests.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index be0d74e..80da74b 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -181,14 +181,6 @@ class QRF(ScenarioGenerator):
                                                         period=period, keep_last_n_lags=keep_last_n_lags, keep_last_seconds=keep_last_seconds,
                                                         tol_period=tol_period)
 
-    @staticmethod
-    def quantiles_to_numpy(q_hat: pd.DataFrame):
-        n_taus = len(q_hat.columns.get_level_values(1).unique())
-        q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
-        return q_hat
-
     def predict_quantiles(self, x, dataframe=True, **kwargs):
         preds = self.predict(x, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else self.q_vect)
         if dataframe is False:
-- 
2.43.0


From b9d435b3444acb5e29ea36924db63da81a6fc882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 020/125] fix: encoding categorical features does not modify
 the caller's DataFrame

---
 pyforecaster/forecaster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index ed7ce5e..d106923 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -30,7 +30,10 @@ def encode_categorical(func):
             self._le = {}
 
         # Check if x contains columns that are not numbers and encode them
-        for column in x.select_dtypes(include=['object', 'category']).columns:
+        categorical = x.select_dtypes(include=['object', 'category']).columns
+        if len(categorical) > 0:
+            x = x.copy()  # do not modify the caller's DataFrame
+        for column in categorical:
             if column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
-- 
2.43.0


From 36e77267e2f8d9206b43b9ecb4f6cd2b943b2a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 021/125] fix: refitting a model relearns the categories

---
 pyforecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index d106923..54fb49f 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -25,8 +25,8 @@ def _validate_max_scengen_rows(value: Optional[Union[int, np.integer]]):
 
 def encode_categorical(func):
     def wrapper(self, x: pd.DataFrame, *args, **kwargs):
-        # Initialize a protected dictionary to store encoders if it doesn't exist yet
-        if not hasattr(self, '_le'):
+        # Initialize a protected dictionary to store encoders if it doesn't exist yet, or if the model is refitted
+        if not hasattr(self, '_le') or func.__name__ == 'fit':
             self._le = {}
 
         # Check if x contains columns that are not numbers and encode them
-- 
2.43.0


From ca45d02a74926753b1d0a9d026ebb0e87cbea4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 022/125] fix: random Fourier feature forecasts are
 denormalized with the original features

---
 pyforecaster/forecasting_models/random_fourier_features.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 9ff1166..e41acca 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -348,8 +348,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return self
 
     def predict(self, x, **kwargs):
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
-        y_hat = RandomFFRegressor.predict(self, x, **kwargs)
+        y_hat = RandomFFRegressor.predict(self, pd.DataFrame(self.scaler.transform(x), index=x.index), **kwargs)
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
@@ -386,10 +385,10 @@ class AdditiveRFFRegression(ScenarioGenerator):
 
     def predict(self, x, **kwargs):
         """Boosting predict."""
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        x_scaled = pd.DataFrame(self.scaler.transform(x), index=x.index)
         y_hat = pd.DataFrame(np.zeros((x.shape[0], len(self.models[0].target_cols))), index=x.index, columns=self.target_cols)
         for m in self.models:
-            y_hat += m.predict(x)
+            y_hat += m.predict(x_scaled)
 
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
-- 
2.43.0


From 294a33d6d358ce76e628ddad5dd1a4e252733b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 023/125] fix: reported parameters include those passed through
 the keyword arguments

---
 pyforecaster/forecaster.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 54fb49f..ef4982f 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -73,6 +73,8 @@ class ScenarioGenerator(BaseEstimator):
         self.scengen_random_state = int(scengen_random_state) if scengen_random_state is not None else None
         self.q_vect = np.hstack([0.01, np.linspace(0,1,11)[1:-1], 0.99]) if q_vect is None else q_vect
         self.scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=nodes_at_step, additional_node=additional_node, **scengen_kwgs)
+        self.nodes_at_step = nodes_at_step
+        self._scengen_kwgs = dict(scengen_kwgs)
         self.val_ratio = val_ratio
         self.err_distr = {}
         self.logger = get_logger(name='Forecaster', level='WARNING') if logger is None else logger
@@ -89,12 +91,21 @@ class ScenarioGenerator(BaseEstimator):
     @online_tree_reduction.setter
     def online_tree_reduction(self, value):
         self.scengen.online_tree_reduction = value
+        self._scengen_kwgs['online_tree_reduction'] = value
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
 
     def get_params(self, **kwargs):
-        return {k: getattr(self, k) for k in signature(self.__class__).parameters.keys() if k in self.__dict__.keys()}
+        parameters = signature(self.__class__).parameters
+        pars = {k: getattr(self, k) for k in parameters.keys() if k in self.__dict__.keys()}
+        if any(p.kind == p.VAR_KEYWORD for p in parameters.values()):
+            # parameters passed through the keyword arguments to the ScenarioGenerator and to the ScenGen
+            pars.update({k: getattr(self, k) for k, p in signature(ScenarioGenerator).parameters.items()
+                         if k not in parameters and k != 'logger' and getattr(self, k, None) is not p.default
+                         and k in self.__dict__.keys()})
+            pars.update(self._scengen_kwgs)
+        return pars
 
     def _get_scengen_subsample_seed(self) -> int:
         if self.scengen_random_state is not None:
-- 
2.43.0


From bd3e2cdae262540bc00e0942e3d69fb8ab520690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 024/125] fix: refitting a random Fourier feature model
 generates its features for the new data

---
 .../random_fourier_features.py                | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index e41acca..dbd290e 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -209,6 +209,8 @@ class Base:
         self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
         self.W   = W
         self.b   = b
+        self.W_  = None  # matrices in use: W and b if passed, otherwise generated at each fit
+        self.b_  = None
 
     def conv(self, x, index=None):
         """
@@ -225,8 +227,8 @@ class Base:
             Also, computation of `ts` is equivarent with ts = X @ W, however, for reducing memory
             consumption, split X to smaller matrices and concatenate after multiplication wit W.
         """
-        W = self.W if index is None else self.W[index]
-        b = self.b if index is None else self.b[index]
+        W = self.W_ if index is None else self.W_[index]
+        b = self.b_ if index is None else self.b_[index]
         return pd.DataFrame(np.cos(x.values @ W + b), index=x.index)
 
     def set_weight(self, dim_in):
@@ -241,14 +243,16 @@ class Base:
             a list/tuple of integers, then generate multiple random matrixes.
         """
         # Generate matrix W.
-        if   self.W is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.W = tuple([self.mat(d) for d in dim_in])
-        else                            : self.W = self.mat(dim_in)
+        if   self.W_ is not None        : pass
+        elif self.W is not None         : self.W_ = self.W
+        elif hasattr(dim_in, "__iter__"): self.W_ = tuple([self.mat(d) for d in dim_in])
+        else                            : self.W_ = self.mat(dim_in)
 
         # Generate vector b.
-        if   self.b is not None         : pass
-        elif hasattr(dim_in, "__iter__"): self.b = tuple([np.random.uniform(0, 2*np.pi, size=self.W.shape[1]) for _ in dim_in])
-        else                            : self.b = np.random.uniform(0, 2*np.pi, size=self.W.shape[1])
+        if   self.b_ is not None        : pass
+        elif self.b is not None         : self.b_ = self.b
+        elif hasattr(dim_in, "__iter__"): self.b_ = tuple([np.random.uniform(0, 2*np.pi, size=w.shape[1]) for w in self.W_])
+        else                            : self.b_ = np.random.uniform(0, 2*np.pi, size=self.W_.shape[1])
 
 
 
@@ -288,6 +292,7 @@ class RandomFFRegressor(Base):
         Returns:
             (rfflearn.cpu.Regression): Fitted estimator.
         """
+        self.W_, self.b_ = None, None
         self.set_weight(x.shape[1])
         self.reg.fit(self.conv(x), y, **args)
         self.target_cols = y.columns
-- 
2.43.0


From f4003773c52642b6674c9c1cf5597251d8b703a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 025/125] fix: the parameters of random Fourier feature models
 are reported and used at fit

---
 .../forecasting_models/random_fourier_features.py     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index dbd290e..9ef6e30 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -342,9 +342,13 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         RandomFFRegressor.__init__(self, "rff", base_model, dim_kernel, std_kernel, W, b)
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
+        self.base_model = base_model
         self.scaler = None
 
     def fit(self, x, y, **args):
+        RandomFFRegressor.__init__(self, "rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
@@ -373,10 +377,17 @@ class AdditiveRFFRegression(ScenarioGenerator):
         self.models = [RandomFFRegressor("rff", base_model, dim_kernel, std_kernel, W, b) for _ in range(n_models)]
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
+        self.W = W
+        self.b = b
+        self.base_model = base_model
         self.scaler = None
 
     def fit(self, x, y, **args):
         """Boosting fit."""
+        self.models = [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
+                       for _ in range(self.n_models)]
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
-- 
2.43.0


From 98cd85d8835329ca1201291f17101f265aff8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 026/125] fix: glasso_cv tunes its penalty on the hour with
 most observations

---
 pyforecaster/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..60f87aa 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -39,7 +39,7 @@ class HourlyGaussianCopula(GaussianCopula):
         self.logger.info('estimating gaussian copula, conditional on day-hour')
         if self.cov_est_method == 'glasso_cv':
             # optimize alpha in CV on the hour with most observations only
-            hour_filt = y.index.hour == y.index.hour.value_counts().argmax()
+            hour_filt = y.index.hour == y.index.hour.value_counts().idxmax()
             x_h = y.loc[hour_filt, :]
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
-- 
2.43.0


From 41c03bbea6ebdcd6dfafa15406bd335a45fb49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 027/125] fix: shrunk copula covariances are normalized to
 correlations

---
 pyforecaster/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 60f87aa..46365b5 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -52,12 +52,12 @@ class HourlyGaussianCopula(GaussianCopula):
                 est_cov = np.corrcoef(x_h.T) + np.eye(self.dim)*1e-6
             elif self.cov_est_method == 'shrunk':
                 sh = ShrunkCovariance().fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                std = np.sqrt(np.diag(sh.covariance_))
                 est_cov = sh.covariance_ / np.outer(std, std)
             elif self.cov_est_method in ['glasso', 'glasso_cv']:
                 self.logger.info('alpha glasso: {}'.format(alpha_glasso))
                 gl = GraphicalLasso(alpha=alpha_glasso).fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                std = np.sqrt(np.diag(gl.covariance_))
                 est_cov = gl.covariance_ / np.outer(std, std)
             else:
                 raise ValueError('cov_est_method not recognized')
-- 
2.43.0


From 75caa022039791d38b53ddf1d6c7bfbcb9ecf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 028/125] fix: scenarios can be sampled for hours with less
 than two residuals

---
 pyforecaster/copula.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 46365b5..b15bebb 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -44,9 +44,10 @@ class HourlyGaussianCopula(GaussianCopula):
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
 
-        for h in np.unique(y.index.hour):
+        for h in np.arange(24):
             hour_filt = y.index.hour == h
-            x_h = y.loc[hour_filt, :]
+            # a correlation needs at least two observations: without them, use those of all the hours
+            x_h = y.loc[hour_filt, :] if np.sum(hour_filt) > 1 else y
             if self.cov_est_method == 'vanilla':
                 # force positive semidefinite matrix
                 est_cov = np.corrcoef(x_h.T) + np.eye(self.dim)*1e-6
-- 
2.43.0


From 953b7658a7dfbfbf9c07df5dc044f8b724e7cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 029/125] fix: scenario reduction accepts any sequence of nodes
 and does not modify it

---
 pyforecaster/scenred.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 3e9f4b3..43a613b 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -65,6 +65,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
 
     if nodes is None:
         nodes = default_nodes
+    nodes = np.array(nodes)  # do not modify the caller's nodes
 
     # pars kwargs
     pars = {'nodes': nodes,
-- 
2.43.0


From 92538ba84a867a20bc447d7f157147a6df7ebf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 030/125] fix: nodes_at_step is compared with the number of
 steps and not modified

---
 pyforecaster/tree_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..c579e32 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -74,7 +74,8 @@ class ScenarioTree:
             nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
                 geometric_nodes
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        nodes_at_step = np.array(nodes_at_step)  # do not modify the caller's nodes
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From 9b07fffb3999e2dbbcf16f5b47c143a2b6afc35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 031/125] fix: initial values of tree nodes come from the
 scenarios of their own step

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index c579e32..c53e511 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -48,7 +48,7 @@ class ScenarioTree:
                     children = list(tree.successors(j))
                     qs = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 1))
                     bins.update({c: [qs[i], qs[i+1]] for i, c in enumerate(children)})
-                    vals_j = np.quantile(scens[t, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
+                    vals_j = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
                     for c, v in zip(children, vals_j):
                         vals[c] = v
                         filters[c] = filters[j][(scens[t+1, filters[j]] > bins[c][0] - 1e-6) &
-- 
2.43.0


From 8855bb2d70749ffa68cb44929939f5f0854e2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 032/125] fix: DiffTree decreases its learning rate when the
 loss increases, for the current tree only

---
 pyforecaster/tree_builders.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index c53e511..dc11928 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -213,8 +213,7 @@ class DiffTree(ScenarioTree):
     def gen_tree(self, scens: Union[list, np.ndarray, pd.DataFrame], start_tree=None, k_max=100, tol=1e-3,
                  do_plot=False, evaluation_step=1, nodes_at_step=None):
         scens = np.array(scens)
-        if self.learning_rate is None:
-            self.learning_rate = np.maximum(1/scens.shape[1], 0.1)
+        learning_rate = np.maximum(1/scens.shape[1], 0.1) if self.learning_rate is None else self.learning_rate
         tree, tree_scens, tree_idxs, tree_vals = super().gen_tree(scens, start_tree, nodes_at_step=nodes_at_step)
         tree, _, tree_vals = self.init_vals(tree, tree_scens, tree_vals, scens)
         k = 0
@@ -226,11 +225,11 @@ class DiffTree(ScenarioTree):
             if k % evaluation_step == 0:
                 loss = self.metric_loss(tree_vals, tree_idxs, scens)
                 rel_dev = np.abs(loss - past_loss) / past_loss
-                past_loss = loss
                 print('iter {}, loss: {}, rel_dev: {:0.2e}'.format(k, loss, rel_dev))
-                if loss > past_loss:
-                    self.learning_rate *= 0.8
-                    print('I am setting learning rate from {} to {} since loss increased last step'.format(self.learning_rate, self.learning_rate*0.8))
+                if k > 0 and loss > past_loss:
+                    print('I am setting learning rate from {} to {} since loss increased last step'.format(learning_rate, learning_rate*0.8))
+                    learning_rate *= 0.8
+                past_loss = loss
             if do_plot and k % evaluation_step == 0:
                 ax.cla()
                 replace_var(tree, tree_vals)
@@ -241,7 +240,7 @@ class DiffTree(ScenarioTree):
                 plt.savefig(join(self.savepath, 'step_{:03d}'.format(k)))
                 plt.pause(0.01)
             g = grad(partial(self.metric_loss, tree_idxs=tree_idxs, scens=scens))(tree_vals)
-            tree_vals -= g*self.learning_rate
+            tree_vals -= g*learning_rate
             k +=1
 
         replace_var(tree, tree_vals)
-- 
2.43.0


From bed0302eed9f125e006771f7c1be32f8562b9ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 033/125] fix: scenarios can be predicted with an additional
 initial node

---
 pyforecaster/forecaster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index ef4982f..fa21cac 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -283,12 +283,14 @@ class ScenarioGenerator(BaseEstimator):
                 pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/len(self.q_vect)
         return pmf
 
-    def predict_scenarios(self, x, n_scen=None, random_state=None, **predict_q_kwargs):
+    def predict_scenarios(self, x, n_scen=None, random_state=None, init_obs=None, **predict_q_kwargs):
         n_scen = self.n_scen_fit if n_scen is None else n_scen
         # retrieve quantiles from child class
         quantiles = self.predict_quantiles(x, dataframe=False, **predict_q_kwargs)
-        scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, random_state=random_state)
-        q_from_scens = np.rollaxis(np.quantile(scenarios, self.q_vect, axis=-1), 0, 3)
+        scenarios = self.scengen.predict_scenarios(quantiles, n_scen=n_scen, x=x, init_obs=init_obs,
+                                                   random_state=random_state)
+        # the additional initial node has no predicted quantiles
+        q_from_scens = np.rollaxis(np.quantile(scenarios[:, -quantiles.shape[1]:, :], self.q_vect, axis=-1), 0, 3)
         mean_abs_dev = np.abs(q_from_scens - quantiles).mean(axis=0).mean(axis=0)
         self.logger.info('mean abs deviations of re-estimated quantiles from scenarios: {}'.format(mean_abs_dev))
         return scenarios
-- 
2.43.0


From 707d9912f209e2da9f399d223760a95260d5a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:11 +0000
Subject: [PATCH 034/125] fix: the tree of a one-step horizon contains its root
 node

---
 pyforecaster/scenred.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 43a613b..8a2c859 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -350,7 +350,9 @@ def get_network(S_s, P_s):
     edges_start, edges_end, attributes_t, attributes_p, attributes_v = _get_network(S_s, P_s)
     attributes = {i: {'t': t, 'p': p, 'v': v, 'label': i} for i, (t, p, v) in enumerate(zip(attributes_t, attributes_p, attributes_v))}
     edges = [(s, e) for s, e in zip(edges_start, edges_end)]
-    g = nx.DiGraph(edges)
+    g = nx.DiGraph()
+    g.add_nodes_from(attributes)
+    g.add_edges_from(edges)
     nx.set_node_attributes(g, attributes)
     return g
 
-- 
2.43.0


From bb2cbc23aa088bede4b6942b3d8742cff1c897c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:27 +0000
Subject: [PATCH 035/125] fix: scenario trees keep the probability of scenarios
 with equal values

---
 pyforecaster/scenred.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index 8a2c859..bbd2be1 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -299,10 +299,10 @@ def _get_network(S_s, P_s):
     attributes_t.append(0)
     attributes_p.append(1)
     attributes_v.append(S_s[0, P_s[0, :] > 0, :].ravel())
+    attributes_s = []  # scenario which created the node
+    attributes_s.append(np.argmax(P_s[0, :]))
     edges_start = []
     edges_end = []
-    times, values = [], []
-    k = 0
     for t in range(1, P_s.shape[0]):
         for s in range(P_s.shape[1]):
             # span all the times, starting from second point (the root node is already defined)
@@ -313,21 +313,18 @@ def _get_network(S_s, P_s):
             # if probability of current point is zero, just go on
             if p == 0:
                 continue
-            mu_past = S_s[t - 1, s, :]
-            # get current times in the tree
-            values_t = [v for v, time in zip(values, times) if time == t]
-            # check if values of current point s are present in the tree at current time
-            equals = [el for el in [np.array_equal(mu, a) for a in values_t] if el]
-
-            if len(equals)>0:
-                continue
+            # check if the path of current point s is already present in the tree at current time
+            same_path = -1
+            for x in range(len(attributes_t)):
+                if attributes_t[x] == t and np.array_equal(S_s[:t + 1, s, :], S_s[:t + 1, attributes_s[x], :]):
+                    same_path = x
+                    break
+
+            if same_path >= 0:
+                attributes_p[same_path] += p
             else:
-                values.append(mu)
-                times.append(t)
                 for x in range(len(attributes_t)):
-                    y_t = attributes_t[x]
-                    y_v = attributes_v[x]
-                    if y_t == t - 1 and np.array_equal(y_v, mu_past):
+                    if attributes_t[x] == t - 1 and np.array_equal(S_s[:t, s, :], S_s[:t, attributes_s[x], :]):
                         parent_node = x
                         break
                 else:
@@ -337,6 +334,7 @@ def _get_network(S_s, P_s):
                 attributes_t.append(t)
                 attributes_p.append(p)
                 attributes_v.append(mu)
+                attributes_s.append(s)
 
                 edges_start.append(parent_node)
                 edges_end.append(new_node)
-- 
2.43.0


From 2ba04e8a6510de6489e53912bbddd288a9504c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:15 +0000
Subject: [PATCH 036/125] fix: scenarios that are all equal up to a step are
 reduced to the requested nodes

---
 pyforecaster/scenred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/scenred.py b/pyforecaster/scenred.py
index bbd2be1..bdb3dcb 100644
--- a/pyforecaster/scenred.py
+++ b/pyforecaster/scenred.py
@@ -162,7 +162,7 @@ def scenred(samples_0, tol=10, metric='cityblock', nodes=None, logger=None):
             # update the differential accuracy
             if not Tol[i] == infty:
                 delta_p = delta_p + dp_min
-            delta_rel = delta_p / delta_max
+            delta_rel = delta_p / delta_max if delta_max > 0 else 0
 
         if i > 0:
             # Update available scenarios in the previous timestep
-- 
2.43.0


From e894650e4c40c124699cd7d3ba809331388e804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 037/125] fix: seasonal persistence repeats the values of one
 season before each step

---
 pyforecaster/forecasting_models/benchmarks.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..7db8546 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -43,16 +43,23 @@ class SeasonalPersistent(ScenarioGenerator):
         self.state = None
 
     def fit(self, x: pd.DataFrame, y: pd.DataFrame = None):
-        x, y, x_val, y_val = self.train_val_split(x, x[[self.target_col]])
+        history = x[[self.target_col]]
+        x, y, x_val, y_val = self.train_val_split(x, history)
+        if self.val_ratio is None:
+            # no observations before the validation rows, start after the first season
+            x, x_val, y_val = x.iloc[:self.seasonality], x_val.iloc[self.seasonality:], y_val.iloc[self.seasonality:]
         hw_target = hankel(y_val.iloc[1:].values, self.n_sa)
         self.state = x[[self.target_col]].iloc[-self.seasonality:].values
         super().fit(x_val.iloc[:-self.n_sa, :], pd.DataFrame(hw_target, index=x_val.index[:hw_target.shape[0]]))
+        # predictions continue from the end of the fitted data
+        self.state = history.iloc[-self.seasonality:].values
         return self
 
     def predict(self, x: pd.DataFrame, **kwargs):
         values = np.hstack([self.state.ravel(), x[self.target_col].values])
-        y_hat = hankel(values, self.n_sa)
-        return pd.DataFrame(y_hat[:len(x), :], index=x.index)
+        # each row is followed by the values of the last season, repeated if the horizon is longer than a season
+        y_hat = hankel(values[1:], self.seasonality)[:, np.arange(self.n_sa) % self.seasonality]
+        return pd.DataFrame(y_hat, index=x.index)
 
     def _predict_quantiles(self, x: pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
-- 
2.43.0


From d83f3192af5b35a940a9b9ddb449c69bb46ec9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 038/125] fix: discrete distribution forecasts keep the index
 of the rows and the order of the targets

---
 pyforecaster/forecasting_models/benchmarks.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 7db8546..9c219c3 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -87,6 +87,7 @@ class DiscreteDistr(ScenarioGenerator):
         self.n_sa = y.shape[1]
         # infer sampling time
         sampling_time = x.index.drop_duplicates().diff().median()
+        self.sampling_time = sampling_time
 
         # retrieve support of target distribution
         support = np.unique(y.values)
@@ -111,18 +112,17 @@ class DiscreteDistr(ScenarioGenerator):
 
         # store the distribution
         self.y_distributions = y_distrib
-        self.target_names = list(y_distrib.columns.levels[0])
-        self.target_cols = [f'{t}_t+{i}' for t in self.target_names for i in range(1, self.n_sa+1)]
+        self.target_names = list(y.columns)
+        self.target_cols = y.columns
         return self
 
     def predict(self, x, **kwargs):
-        return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
+        y_hat = self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)
+        return y_hat.T.groupby(level=0).sum().T[self.target_names]
 
     def predict_probabilities(self, x, **kwargs):
-        # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        time_of_day = pd.Series(x.index.floor(self.sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From 3522fb532057683edcae3a5b493a7d45f6a647de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 039/125] fix: the probability mass is the share of the
 predicted quantiles, also for a subset of the levels

---
 pyforecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index fa21cac..cd27bd8 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -280,7 +280,7 @@ class ScenarioGenerator(BaseEstimator):
         pmf = np.zeros((quantiles.shape[0], quantiles.shape[1], len(discrete_prob_space)-1))
         for i in range(quantiles.shape[0]):
             for j in range(quantiles.shape[1]):
-                pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/len(self.q_vect)
+                pmf[i, j, :] = np.histogram(quantiles[i, j, :], bins=discrete_prob_space)[0]/quantiles.shape[2]
         return pmf
 
     def predict_scenarios(self, x, n_scen=None, random_state=None, init_obs=None, **predict_q_kwargs):
-- 
2.43.0


From 4d289ab76eea7d8edc4931a21b0dbd824799bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 040/125] fix: reconciled forecasts are labelled with their own
 series, whatever the order of the columns

---
 pyforecaster/reconciliation/reconciliation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..e1d850e 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -309,17 +309,16 @@ class HierarchicalReconciliation:
 
     def reconcile(self, y_hat):
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
+            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].values.T
         elif self.method == 'bayes':
-            y_b = y_hat.loc[:, self.bottom_series]
-            y_u = y_hat.loc[:, self.aggregated_series]
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
+            y_b = y_hat.loc[:, self.bottom_series].values.T
+            y_u = y_hat.loc[:, self.aggregated_series].values.T
+            y_b_rec = y_b + self.g_matrix @ (y_u - self.a_matrix @ y_b)
             y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-        y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        # rows of the summation matrix follow ordered_cols, return the order of the given forecasts
+        return pd.DataFrame(y_rec.T, index=y_hat.index, columns=self.ordered_cols)[list(y_hat.columns)]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
@@ -329,7 +328,8 @@ class HierarchicalReconciliation:
         self.n_u = n_all - self.n_b
         I = np.eye(self.n_b)
         self.s_matrix = np.vstack([self.a_matrix, I])
-        self.aggregated_series = [c for c in y.columns if c not in self.bottom_series]
+        # same order of the rows of the aggregation matrix
+        self.aggregated_series = list(self.hierarchy_flatten.keys())
 
     @staticmethod
     def estimate_covariance(x, method):
-- 
2.43.0


From a1a15a11f0de341cc9b5fe20279d5c7c1cf6616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 041/125] fix: bayesian reconciliation of a single aggregation
 uses the variance of its errors

---
 pyforecaster/reconciliation/reconciliation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index e1d850e..8b30060 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -295,7 +295,7 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             cov_b, precision_b = self.estimate_covariance(err_b.values, method=cov_method)
             if err_u.shape[1] < 2:
-                cov_u = np.std(err_u)
+                cov_u = np.var(err_u.values).reshape(1, 1)
             else:
                 cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
             self.g_matrix = cov_b @ self.a_matrix.T @ np.linalg.inv(cov_u + self.a_matrix @ cov_b @ self.a_matrix.T)
-- 
2.43.0


From 4ec4258c77423a68a90c7167881b309120895d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 042/125] fix: each step is reconciled with the covariance of
 its own errors

---
 pyforecaster/reconciliation/reconciliation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 8b30060..ecb6231 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -35,6 +35,7 @@ class HierarchicalReconciliation:
         self.n_scenarios = n_scenarios
         self.errs_hat = None
         self.errs_tilde = None
+        self.step_matrices = {}
     def get_unrolled_hierarchy(self):
         return self.hierarchy_flatten
 
@@ -183,6 +184,7 @@ class HierarchicalReconciliation:
         # fit reconciliation for all the steps ahead, keep errors, pre- and post-reconciliation
         self.steps = y_tr.columns.get_level_values(1).unique()
         errs_hat, errs_tilde = {}, {}
+        self.step_matrices = {}
         target_names = y_hat.columns.get_level_values(1).unique()
         for t_name in tqdm(target_names):
             # ---------------------------- get base predictions, ground truth for sa ---------------------------------------
@@ -191,7 +193,8 @@ class HierarchicalReconciliation:
 
             # ---------------------------- fit, predict -------------------------------------------------------------------
             self.fit_reconciliation(y_sa, y_hat_sa, self.hierarchy)
-            y_tilde_sa = self.reconcile(y_hat_sa)
+            self.step_matrices[t_name] = (self.p_matrix, self.g_matrix)
+            y_tilde_sa = self.reconcile(y_hat_sa, t_name)
 
             # ---------------------------- retrieve error samples from the training set ------------------------------------
 
@@ -214,7 +217,7 @@ class HierarchicalReconciliation:
         for t_name in tqdm(target_names):
             # get reconciled forecasts at this step ahead
             y_hat_sa = y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].droplevel(1, 1)
-            y_tilde[t_name] = self.reconcile(y_hat_sa)
+            y_tilde[t_name] = self.reconcile(y_hat_sa, t_name)
 
         y_tilde = pd.concat(y_tilde, axis=1).swaplevel(0, 1, axis=1).sort_index(axis=1)
 
@@ -246,7 +249,7 @@ class HierarchicalReconciliation:
         target_names = y_hat.columns.get_level_values(1).unique()
         if method == 'reconciled':
             y_tilde = pd.concat({t_name: self.reconcile(y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].
-                                                    droplevel(1, 1)) for t_name in target_names}, axis=1)
+                                                    droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
         scens = []
@@ -307,13 +310,15 @@ class HierarchicalReconciliation:
 
         return y_rec
 
-    def reconcile(self, y_hat):
+    def reconcile(self, y_hat, t_name=None):
+        # use the matrices fitted on the given step, the last fitted ones by default
+        p_matrix, g_matrix = self.step_matrices.get(t_name, (self.p_matrix, self.g_matrix))
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].values.T
+            y_rec = self.s_matrix @ p_matrix @ y_hat[self.ordered_cols].values.T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series].values.T
             y_u = y_hat.loc[:, self.aggregated_series].values.T
-            y_b_rec = y_b + self.g_matrix @ (y_u - self.a_matrix @ y_b)
+            y_b_rec = y_b + g_matrix @ (y_u - self.a_matrix @ y_b)
             y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-- 
2.43.0


From e9758cdfd5e4b1cc452fbc059899b550a61bc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 043/125] fix: reconciled scenarios can be predicted for rows
 other than the training ones

---
 pyforecaster/reconciliation/reconciliation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index ecb6231..f84d1d0 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -254,13 +254,20 @@ class HierarchicalReconciliation:
 
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
+            h_idx_te = y_hat.index.hour == h
             if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
+                y_hat_h = y_hat.loc[h_idx_te]
+                errs = self.errs_hat
             elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+                y_hat_h = y_tilde.loc[h_idx_te]
+                errs = self.errs_tilde
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            if n_times == 0:
+                continue
+            h_idx_tr = errs.index.hour == h
+            # errors of the same hour, if there are any
+            errs_h = errs.loc[h_idx_tr] if h_idx_tr.any() else errs
+            scens.append(pd.concat({s: y_hat_h + errs_h
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From 77eb81dc8febd39f583e1da02b3f08ea8f0fe798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 044/125] fix: quantiles of the base forecasters can be
 retrieved without reconciliation

---
 pyforecaster/reconciliation/reconciliation.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index f84d1d0..8586b8d 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -3,7 +3,7 @@ import pandas as pd
 from sklearn.covariance import GraphicalLassoCV, ShrunkCovariance
 from pyforecaster.forecaster import LinearForecaster
 from tqdm import tqdm
-from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
+from pyforecaster.utilities import convert_multiindex_pandas_to_tensor
 from pyforecaster.utilities import get_logger
 import seaborn as sb
 from pyforecaster.plot_utils import plot_scenarios_from_multilevel
@@ -102,19 +102,13 @@ class HierarchicalReconciliation:
 
         return y_hat
     def get_quantiles(self, x: pd.DataFrame, level='bottom'):
-        steps_ahead = len(self.steps)
         if level == 'bottom':
             bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
-            q_hat = pd.concat({k: from_tensor_to_pdmultiindex(
-                    self.models_dict['bottom'].predict_quantiles(
-                        x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    bottom_series}, axis=1)
+            q_hat = pd.concat({k: self.models_dict['bottom'].predict_quantiles(
+                        x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in bottom_series}, axis=1)
         elif level == 'aggregations':
             q_hat = pd.concat(
-                {k: from_tensor_to_pdmultiindex(
-                    self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
+                {k: self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in
                     self.hierarchy.keys()},
                 axis=1)
         elif level == 'all':
@@ -165,13 +159,13 @@ class HierarchicalReconciliation:
         models_dict = {}
         for k in self.hierarchy.keys():
             filt_k = x['name'] == k
-            m = self.base_forecaster_class(**self.base_forecaster_kwargs)
+            m = self.base_forecaster_class(q_vect=self.q_vect, **self.base_forecaster_kwargs)
             models_dict[k] = m.fit(x.loc[filt_k].drop('name', axis=1), y.loc[filt_k])
 
         # train a global model for the bottom series
         bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
         filt_k = x['name'].isin(bottom_series)
-        m = self.base_forecaster_class(**self.base_forecaster_kwargs)
+        m = self.base_forecaster_class(q_vect=self.q_vect, **self.base_forecaster_kwargs)
         models_dict['bottom'] = m.fit(x.loc[filt_k].drop('name', axis=1), y.loc[filt_k])
         self.models_dict = models_dict
 
-- 
2.43.0


From 614d5dd92b603bafa4e4d0b7d751d06178bd3218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 045/125] fix: hierarchies keep the names of the series and
 their root, whatever the type of the names and the order of the nodes

---
 pyforecaster/reconciliation/reconciliation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 8586b8d..1ab7aa7 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -40,8 +40,9 @@ class HierarchicalReconciliation:
         return self.hierarchy_flatten
 
     def get_hierarchy_levels(self):
-        l = pd.DataFrame({k: len(v) for k, v in self.hierarchy_flatten.items()}, index=[0])
-        root = l.idxmax(1).values[0]
+        # the root is not below any other node
+        children = {c for v in self.hierarchy.values() for c in v}
+        root = max([k for k in self.hierarchy if k not in children], key=lambda k: len(self.hierarchy_flatten[k]))
         # build levels starting from root
         levels = pd.DataFrame(self.explore_hierarchy(self.hierarchy, root), index=['level']).T
         return levels
@@ -66,10 +67,10 @@ class HierarchicalReconciliation:
         for i in hierarchy[k]:
             if i in hierarchy.keys():
                 sublist = HierarchicalReconciliation.unroll_subdict(hierarchy, i)
-                full_list.append(sublist)
+                full_list.extend(sublist)
             else:
-                full_list.append(np.array(i))
-        return np.hstack(full_list)
+                full_list.append(i)
+        return full_list
 
     @staticmethod
     def unroll_dict(hierarchy):
-- 
2.43.0


From af9a39dfa2c3b87bb76ff702cba94d70ab80f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 046/125] fix: summary scores do not rename the columns of the
 caller's forecasts

---
 pyforecaster/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..d7499dd 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,7 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From d3e338d2465589795b86ad8238426fce235fa771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 047/125] fix: reliability of a table of quantiles can be
 computed with the default levels

---
 pyforecaster/metrics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index d7499dd..114e42a 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -101,7 +101,6 @@ def crps(q_hat, t, alphas=None, agg_index=None, collapse_quantile_axis=True, **k
 
 
 def reliability(q_hat, t, alphas=None, agg_index=None, get_score=False, **kwargs):
-    alphas = np.linspace(0, 1, q_hat.shape[2]) if alphas is None else alphas
     _, reliability = quantile_scores(q_hat, t, alphas=alphas, agg_index=agg_index)
 
     # subtract to reliability dataframe the name of the first level of the multiindex dataframe
-- 
2.43.0


From e1c4297daf4ce1121f324c07a3f2006d1b48320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 048/125] fix: masked scores use exactly the masked values,
 also for quantiles

---
 pyforecaster/metrics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 114e42a..3067c4c 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -71,7 +71,8 @@ def quantile_scores(q_hat, t, alphas=None, agg_index=None, **kwargs):
             err_alpha = q_hat[:, a, :] - t.values
         else:
             err_alpha = q_hat[:, :, a] - t.values
-        I = (err_alpha > 0).astype(int)
+        # missing (masked) values do not count
+        I = np.where(np.isnan(err_alpha), np.nan, err_alpha > 0)
         qs_a = (I - alpha) * err_alpha
 
         if axis == 0:
@@ -163,9 +164,11 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
                                                                      'This could be a sign that something is wrong. ' \
                                                                      'Please, check.'
 
-    # mask[mask] transform a boolean mask in a 1.0-NaN mask
-    x = x if mask is None else x * mask[mask].values
-    t = t if mask is None else t * mask[mask].values
+    # set values outside the mask to NaN. Quantiles have a different shape, their scores are masked by the target
+    if mask is not None:
+        mask = mask.values.astype(bool)
+        x, t = [(a.where(mask) if isinstance(a, pd.DataFrame) else np.where(mask, a, np.nan))
+                if np.shape(a) == mask.shape else a for a in [x, t]]
 
     # quantize non-integer data
     if np.any(~agg_indexes.dtypes.isin([np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')])):
-- 
2.43.0


From f2bd1a514c81b560b2d84e2a412851ea4de1a858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 049/125] fix: summary scores do not merge integer or named
 groups when another index is quantized

---
 pyforecaster/metrics.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 3067c4c..db52ae7 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -171,11 +171,10 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
                 if np.shape(a) == mask.shape else a for a in [x, t]]
 
     # quantize non-integer data
-    if np.any(~agg_indexes.dtypes.isin([np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')])):
-        qcuts = [pd.qcut(agg_indexes.loc[:, k], n_quantiles, duplicates='drop') for k in agg_indexes.columns if agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles]
-        if len(qcuts)>0:
-            replacement_idxs = [agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles for k in agg_indexes.columns]
-            agg_indexes.loc[:, replacement_idxs] = pd.concat(qcuts, axis=1)
+    for k in agg_indexes.columns:
+        is_continuous = pd.api.types.is_float_dtype(agg_indexes[k]) or pd.api.types.is_datetime64_any_dtype(agg_indexes[k])
+        if is_continuous and len(agg_indexes[k].value_counts()) >= n_quantiles:
+            agg_indexes[k] = pd.qcut(agg_indexes[k], n_quantiles, duplicates='drop').astype(object)
 
     scores_df = {}
     for m in metrics:
-- 
2.43.0


From 016065749cf583b8463a4e149aa7cd3a97293285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:33 +0000
Subject: [PATCH 050/125] fix: KPIs compare the quantiles of each series with
 its own observations

---
 pyforecaster/reconciliation/reconciliation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 1ab7aa7..572f2d9 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -382,8 +382,11 @@ class HierarchicalReconciliation:
         kpi = {}
         target_names = hat.columns.get_level_values(1).unique()
         for s in target_names:
-            hat_s = convert_multiindex_pandas_to_tensor(hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1))
+            hat_s = hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1)
+            # same order of series and rows of the forecasts
             y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)
+            y_mat_s = y_mat_s.loc[hat.index, hat_s.columns.get_level_values(0).unique()]
+            hat_s = convert_multiindex_pandas_to_tensor(hat_s)
             kpi[s] = metric(hat_s, y_mat_s, **metric_kwargs).T
             if kpi[s].index.nlevels == 2:
                 kpi[s] = kpi[s].unstack(level=0)
-- 
2.43.0


From c3be2f9767121a87a385eb47d259472a6497f9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 051/125] fix: folds given as positions select the same rows in
 all the cross validation types, also from generators

---
 pyforecaster/trainer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..6ad6167 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -35,7 +35,8 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     :param cv_kwargs: additional arguments to be passed to the cross validation function
     :return:
     """
-    # create generator
+    # folds are used more than once
+    cv_folds = list(cv_folds)
     cv_gen = (f for f in cv_folds)
 
     # retrieve cross validation score
@@ -51,12 +52,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): y.iloc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.iloc[cv_idxs[1]]) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = x.iloc[tr_idx], x.iloc[te_idx], y.iloc[tr_idx], y.iloc[te_idx]
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From a61a3ce00649fccb8127fa6394a830140a4bf594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 052/125] fix: random fold cross validation accepts a
 dictionary of scores

---
 pyforecaster/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 6ad6167..4f5e468 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -17,6 +17,8 @@ def default_param_space_fun(trial):
 def get_score_key(cv_results, scoring, score_key=None):
     fallback_name = 'test_' + list(scoring.keys())[0] if isinstance(scoring, dict) else list(cv_results.keys())[-1]
     fallback_name = 'test_score' if 'test_score' in cv_results.keys() else fallback_name
+    if isinstance(scoring, dict) and fallback_name not in cv_results.keys():
+        fallback_name = list(scoring.keys())[0]
     score_key = score_key if score_key is not None else fallback_name
     return score_key
 
-- 
2.43.0


From 64cc8944ed4406c0b9b2df300ca0e5591466756e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 053/125] fix: tuning does not modify the base model,
 parameters of a trial do not leak into the next ones

---
 pyforecaster/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 4f5e468..177633a 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -4,6 +4,7 @@ from sklearn.metrics import make_scorer
 import optuna
 import pandas as pd
 from pyforecaster.metrics import nmae, make_scorer
+from copy import deepcopy
 from functools import partial
 import numpy as np
 from pyforecaster.dictionaries import HYPERPAR_MAP
@@ -60,6 +61,7 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
         x_tr, x_te, y_tr, y_te = x.iloc[tr_idx], x.iloc[te_idx], y.iloc[tr_idx], y.iloc[te_idx]
+        model = deepcopy(model)  # do not fit the caller's model
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
@@ -98,6 +100,8 @@ def optuna_objective(trial, x: pd.DataFrame, y: pd.DataFrame, model, cv, scoring
     if not np.all([k in list(signature(model.__class__).parameters.keys()) + list(model.get_params().keys()) for k in params.keys()]):
         raise ValueError('not all parameter space names are in the model signature. This means they will not affect the'
                          ' performance of your model. Something is wrong')
+    # parameters of this trial must not affect the caller's model and the next trials
+    model = deepcopy(model)
     model.set_params(**params)
 
     # retrieve cross validation score
-- 
2.43.0


From e6f951174e13be9ca8a679e8ac539196e5b2ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 054/125] fix: a missing observation no longer turns all later
 Holt-Winters forecasts into NaN

---
 pyforecaster/forecasting_models/holtwinters.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..c729e31 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -350,14 +350,11 @@ def run(horizon, period, alpha, beta, gamma, s1mp, s2mp, am1, bm1, Y, y_tot, y_h
     s1mp_shift = 0*s1mp
     s2mp_shift = 0*s2mp
     for j in np.arange(len(Y)):
-        if np.isnan(Y[j]):
-            a = alpha * (y_tot[j,0] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (y_tot[j,0] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (y_tot[j,0] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
-        else:
-            a = alpha * (Y[j] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (Y[j] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (Y[j] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
+        # a missing observation is replaced by its one step ahead prediction
+        y_j = am1 + bm1 + s1mp[0] + s2mp[0] if np.isnan(Y[j]) else Y[j]
+        a = alpha * (y_j - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
+        s1 = gamma[0] * (y_j - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
+        s2 = gamma[1] * (y_j - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
         s1 = constrainify(s1, constraints)
         s2 = constrainify(s2, constraints)
 
-- 
2.43.0


From d91678fde469fc72e2d58e66131c07eefe463729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 055/125] fix: Holt-Winters forecasts use the trend parameter
 the model was fitted with

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index c729e31..e2394c0 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -223,7 +223,7 @@ class HoltWinters(ScenarioGenerator):
         hw_input = y_past
 
         # predict the HW
-        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel(), self.alpha, 0, self.gamma_1, self.gamma_2)
+        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel())
 
         # set the states (it is thought that the forecaster is called in sequence on ordinate samples)
         self.a = a
-- 
2.43.0


From 27ea21981a7136bf0dbceeb2bde8302bbf23d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 056/125] fix: Holt-Winters residual quantiles refer to the
 forecasts made without covariates

---
 pyforecaster/forecasting_models/holtwinters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index e2394c0..15b4e7c 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -196,9 +196,11 @@ class HoltWinters(ScenarioGenerator):
         y_hat_hw = y_hat_hw[:hw_target.shape[0], :]
 
         resid = hw_target - y_hat_hw
-        self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
-        self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
-                                        index=x_pd.index[:-self.n_sa])
+        # correct for covariates
+        if len(x_pd.columns) > 1:
+            self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
+            y_hat_hw = y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output
+        self.y_hat_tr = pd.DataFrame(y_hat_hw, index=x_pd.index[:-self.n_sa])
         resid = hw_target - self.y_hat_tr
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
-- 
2.43.0


From bbd8f8e8dac68a531f6999fd786666def52884ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 057/125] fix: refitting Holt-Winters starts from fresh states

---
 pyforecaster/forecasting_models/holtwinters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 15b4e7c..75c5d37 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -188,6 +188,8 @@ class HoltWinters(ScenarioGenerator):
         y = x_pd[self.target_name].values
         x = x_pd.values
 
+        # do not start from the states of a previous fit
+        self.a, self.b, self.s1, self.s2 = None, None, None, None
         y_hat_hw, self.a, self.b, self.s1, self.s2 = self._run(y)
 
         hw_target = hankel(y[1:], self.n_sa)
-- 
2.43.0


From 0e5f9a1d91a51603a72b2106f631d010999d808c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 058/125] fix: Holt-Winters multi gets the quantiles of every
 step and can predict them

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 75c5d37..01c3e7d 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -438,11 +438,12 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
         self.reinit(x_pd[self.target_name].values)
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
         self.err_distr = err_distr
 
         return self
-- 
2.43.0


From 1f883eab8785647e36570875aa0ce8eec34abcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 059/125] fix: Holt-Winters multi passes the constraints to its
 submodels

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 01c3e7d..9a6e392 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -402,6 +402,7 @@ class HoltWintersMulti(ScenarioGenerator):
                           'models_periods': models_periods, 'optimize_submodels_hyperpars':optimize_submodels_hyperpars,
                           'targets_names': targets_names}
 
+        self.constraints = constraints
         self.targets_names = [target_name] if targets_names is None else targets_names
         self.periods = periods
         self.optimization_budget = optimization_budget
@@ -420,7 +421,7 @@ class HoltWintersMulti(ScenarioGenerator):
         models = []
         for i, n in enumerate(self.models_periods):
             models.append(HoltWinters(periods=self.periods, q_vect=self.q_vect,
-                             n_sa=n, target_name=self.target_name, optimization_budget=self.optimization_budget,
+                             n_sa=n, target_name=self.target_name, constraints=self.constraints, optimization_budget=self.optimization_budget,
                                       targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
                                       alpha=self.alphas[i], gamma_1=self.gammas_1[i], gamma_2=self.gammas_2[i]))
 
-- 
2.43.0


From 7b8104e076c4fffbb45c10a731961f7f494aadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 060/125] fix: serial hyperparameter tuning scores every trial
 on all the targets and keeps the target

---
 pyforecaster/forecasting_models/holtwinters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 9a6e392..7f0a918 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,13 +29,13 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
-    if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
+    if model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
+        targets_names = [model.target_name] if targets_names is None else targets_names
         subscores = []
         for c in targets_names:
-            model_init_kwargs.update({'target_name': c, 'targets_names': None})
-            model = model_class(**model_init_kwargs)
+            model = model_class(**{**model_init_kwargs, 'target_name': c, 'targets_names': None})
             # features are all x columns except the targets and current target c
             features_names = [n for n in x.columns if n not in set(targets_names) - {c}]
             model.target_name = c
-- 
2.43.0


From da6d612334dd238a0f788f5fc6ea64b7565068f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 061/125] fix: adaptive forecasters can be pickled and
 deep-copied

---
 .../fast_adaptive_models.py                   | 27 +++----------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..3115cc0 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -243,7 +243,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.__setstate__({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -253,12 +253,6 @@ class Fourier_es(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 
 #@njit
@@ -399,7 +393,7 @@ class FK(StatefulForecaster):
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
                                                                self.n_harmonics_int, w)
         if fit:
-            self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
@@ -412,12 +406,6 @@ class FK(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
-
 
 class FK_multi(StatefulForecaster):
     """
@@ -570,18 +558,11 @@ class FK_multi(StatefulForecaster):
 
         if fit:
             # if we were fitting, store states. Do nothing if we're predicting
-            # self.states = [self.models[j].__getstate__() for j in range(self.n_predictors)]
-            self.__setstate__({'Q':Q, 'R':R, 'P':P, 'x':x})
+            self.states.update({'Q':Q, 'R':R, 'P':P, 'x':x})
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
         return np.vstack(preds[1:])
 
     def _predict_quantiles(self, x, **kwargs):
         preds = self.predict(x)
-        return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
-
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
\ No newline at end of file
+        return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
\ No newline at end of file
-- 
2.43.0


From a8d897d9e5934893abe3faa478111adf0a79f618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 062/125] fix: quantiles of FK_multi carry the labels of its
 forecasts

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 3115cc0..28d5cb3 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -501,7 +501,7 @@ class FK_multi(StatefulForecaster):
         # hankelize the target
         hw_target = hankel(x_pd[self.target_name].values[1:], self.n_sa)
         resid = hw_target - preds
-        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
+        self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa + 1)]
         resid = pd.DataFrame(resid, index=x_pd.index[:-self.n_sa], columns=self.target_cols)
         self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
         return self
-- 
2.43.0


From 6ccfaa7a12a6aeceb8326fbe6f1200e07eaf353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 063/125] fix: FK_multi weighs its predictors on the
 observation they predicted

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 28d5cb3..2626330 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -532,7 +532,7 @@ class FK_multi(StatefulForecaster):
                 # average last point error over different prediction times for all the models
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
-                norm_avg_err = [np.mean([np.abs(preds_experts[i-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
+                norm_avg_err = [np.mean([np.abs(preds_experts[i-1-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
                 norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
-- 
2.43.0


From 4e9d2d8072c9b0528ea8bb48ea30b4df08542db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 064/125] fix: refitting an adaptive forecaster starts from
 fresh states

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 2626330..fcae3d2 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -132,6 +132,9 @@ class StatefulForecaster(ScenarioGenerator):
     def fit(self, x_pd, y_pd=None, **kwargs):
         if self.optimize_hyperpars:
             self.tune_hyperpars(x_pd)
+        else:
+            # do not start from the states of a previous fit
+            self.reinit_pars()
 
         y_present = x_pd[self.target_name].values
         x = x_pd.values
@@ -491,7 +494,7 @@ class FK_multi(StatefulForecaster):
             pars_opt = tune_hyperpars(x_pd, FK_multi, hyperpars={'fake':[0, 1]},
                             n_trials=1, return_model=False, parallel=False, model_init_kwargs=self.init_pars)
             self.set_params(**pars_opt)
-            self.reinit_pars()
+        self.reinit_pars()
 
         preds, _ = self.run(x_pd, fit=True)
 
-- 
2.43.0


From 66288392a0f1ccd8820837ef7e2a403f2396350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:52 +0000
Subject: [PATCH 065/125] fix: adaptive forecasts continue the phase and the
 history of the fitted series

---
 .../fast_adaptive_models.py                   | 38 ++++++++++++-------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index fcae3d2..b537aaf 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -185,7 +185,7 @@ class Fourier_es(StatefulForecaster):
         self.P_future = None
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, m//2]}
-        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0}
+        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0, 'n_obs':0}
         self.reinit_pars()
 
 
@@ -194,6 +194,7 @@ class Fourier_es(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = 0
         self.states['last_1sa_preds'] = 0
+        self.states['n_obs'] = 0
         self.store_basis()
 
     def store_basis(self):
@@ -214,6 +215,8 @@ class Fourier_es(StatefulForecaster):
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
         w_init = states['w']
+        # observations seen before y: the coefficients in x refer to a basis rolling with the time
+        n_obs = states['n_obs']
 
         if x is None:
             x = np.zeros(2 * self.n_harmonics_int + 1)
@@ -226,9 +229,10 @@ class Fourier_es(StatefulForecaster):
         last_1sa_preds = np.copy(last_1sa_preds)
 
         for i in range(start_from, len(y)):
-            P_past = self.P_future[i % self.m:(i % self.m + self.m), :]
+            k = (n_obs + i) % self.m
+            P_past = self.P_future[k:(k + self.m), :]
             # this is copy-pasting the Fourier smoothing in the last periodicity
-            P_f = self.P_future[i % self.m + self.m - self.periodicity:i % self.m + self.m -self.periodicity + self.n_sa, :]
+            P_f = self.P_future[k + self.m - self.periodicity:k + self.m -self.periodicity + self.n_sa, :]
             start = np.maximum(0, i-self.m+1)
 
             w = self.generate_recent_history(y, w_init, start, i)
@@ -246,7 +250,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds, 'n_obs': n_obs + len(y)})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -259,12 +263,14 @@ class Fourier_es(StatefulForecaster):
 
 
 #@njit
-def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init):
+def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init, n_obs=0):
     preds = []
     for i in range(start_from, len(y)):
-        P_past = Ps_future[i % m:(i % m + m), :]
+        # time step including the observations seen before y: the coefficients in x refer to a basis rolling with the time
+        t = n_obs + i
+        P_past = Ps_future[t % m:(t % m + m), :]
         # this is copy-pasting the Fourier smoothing in the last periodicity
-        P_f = Ps_future[i % m + m  -period: i % m + m -period+h, :]
+        P_f = Ps_future[t % m + m  -period: t % m + m -period+h, :]
 
         start = max(0, i - m + 1)
 
@@ -286,10 +292,10 @@ def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m,
 
         eps = omega * (w[-1] - last_1sa_preds) + (1 - omega) * eps
         preds.append((last_preds + eps * (h - np.arange(h)) ** 2 / h ** 2).ravel())
-        coeffs_t_history[:, i] = coeffs
+        coeffs_t_history[:, t] = coeffs
 
-        if i % m == 0 and i >= m:
-            Q = np.corrcoef(coeffs_t_history[:, :i])
+        if t % m == 0 and t >= m:
+            Q = np.corrcoef(coeffs_t_history[:, :t])
             R = Q * 0.01
             #P = np.eye(n_harmonics * 2 + 1) * 1000
 
@@ -339,7 +345,7 @@ class FK(StatefulForecaster):
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, self.m // 2], 'r': [0.001, 0.8],
                               'q': [0.001, 0.8]}
-        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0}
+        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0, 'n_obs':0}
         self.reinit_pars()
 
 
@@ -356,6 +362,8 @@ class FK(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = None
         self.states['last_1sa_preds'] = 0
+        self.states['n_obs'] = 0
+        self.coeffs_t_history = []
         self.P_future = None
         self.store_basis()
 
@@ -379,6 +387,7 @@ class FK(StatefulForecaster):
         w = states['w']
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
+        n_obs = states['n_obs']
 
         if eps is None:
             eps = 0
@@ -394,12 +403,13 @@ class FK(StatefulForecaster):
          x, P, Q, R, coeffs_t_history, w) = update_predictions(coeffs_t_history.T, start_from, y, self.P_future,
                                                                self.periodicity, self.n_sa, self.m, self.omega,
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
-                                                               self.n_harmonics_int, w)
+                                                               self.n_harmonics_int, w, n_obs)
         if fit:
-            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds,
+                                'n_obs': n_obs + len(y)})
+            self.coeffs_t_history = coeffs_t_history.T
 
         preds = preds + preds_updated
-        self.coeffs_t_history = coeffs_t_history.T
 
         if return_coeffs:
             return np.vstack(preds[1:]), coeffs_t_history.T
-- 
2.43.0


From b29b01e65754303597af8ab808b174669bd67a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 066/125] fix: Holt-Winters quantiles are not NaN

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 7f0a918..970e886 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -203,7 +203,7 @@ class HoltWinters(ScenarioGenerator):
             self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
             y_hat_hw = y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output
         self.y_hat_tr = pd.DataFrame(y_hat_hw, index=x_pd.index[:-self.n_sa])
-        resid = hw_target - self.y_hat_tr
+        resid = hw_target - self.y_hat_tr.values
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
 
-- 
2.43.0


From 13a9c533e1137204662480ba635715e1d80ca36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 067/125] fix: Kalman forecasters handle constant coefficients
 and single coefficients

---
 .../forecasting_models/fast_adaptive_models.py    | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index b537aaf..e7c0a28 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -24,6 +24,15 @@ def get_basis(t, l, n_h, frequencies=None):
   P = np.vstack([np.ones(len(t))/np.sqrt(2), trigonometric]).T * np.sqrt(2 / l)
   return P
 
+def coeffs_correlation(coeffs):
+    """
+    Correlation matrix of the coefficients (n_coeffs, n_steps); coefficients which never changed are uncorrelated
+    """
+    with np.errstate(divide='ignore', invalid='ignore'):
+        corr = np.nan_to_num(np.atleast_2d(np.corrcoef(coeffs)))
+    np.fill_diagonal(corr, 1)
+    return corr
+
 def generate_recent_history(y, w, start, i):
     """
     :param y: target array during training / testing
@@ -295,7 +304,7 @@ def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m,
         coeffs_t_history[:, t] = coeffs
 
         if t % m == 0 and t >= m:
-            Q = np.corrcoef(coeffs_t_history[:, :t])
+            Q = coeffs_correlation(coeffs_t_history[:, :t])
             R = Q * 0.01
             #P = np.eye(n_harmonics * 2 + 1) * 1000
 
@@ -565,8 +574,8 @@ class FK_multi(StatefulForecaster):
             if return_coeffs:
                 coeffs_t_history.append(coeffs_t)
             if i % self.m == 0 and i >= self.m:
-                Q = np.corrcoef(np.vstack(coeffs_t_history).T)
-                R = np.corrcoef(np.vstack(coeffs_t_history).T) * 10
+                Q = coeffs_correlation(np.vstack(coeffs_t_history).T)
+                R = Q * 10
                 #P = np.eye(self.n_predictors) * 1000
 
         if fit:
-- 
2.43.0


From 92652da87406878c72d88910f8c27ac0c5a95fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 068/125] fix: FK_multi handles predictors without errors

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index e7c0a28..3c673b0 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -555,7 +555,8 @@ class FK_multi(StatefulForecaster):
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
                 norm_avg_err = [np.mean([np.abs(preds_experts[i-1-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
-                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
+                # errors can also all be zero
+                norm_avg_err = np.array(norm_avg_err) / (np.mean(norm_avg_err) or 1)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
                 coeffs_t = x
-- 
2.43.0


From ca95bc04173de6812c9b1b9a558603d81320e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:47 +0000
Subject: [PATCH 069/125] fix: keep_last_seconds keeps only the features of the
 last seconds

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index bc87a05..43cc179 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -514,7 +514,7 @@ class Formatter:
             metadata['keep'] = metadata['keep'] | metadata['lag'].isin(np.arange(keep_last_n_lags))
 
         if keep_last_seconds > 0:
-            close = (metadata['end_time'] <= pd.Timedelta(keep_last_seconds, unit='s')) | (
+            close = (metadata['end_time'] >= -pd.Timedelta(keep_last_seconds, unit='s')) & (
                         metadata['end_time'] <= pd.Timedelta(keep_last_seconds, unit='s'))
             predecessor = metadata['end_time'] <= target_end_time
             metadata['keep'] = metadata['keep'] | (close & predecessor)
-- 
2.43.0


From 4860bfb5abee19ec3a0d2efb6faa66e24758de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 070/125] fix: QRF can use sample weights with a validation
 split

---
 pyforecaster/forecasting_models/randomforests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 80da74b..fbc143e 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -103,6 +103,8 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def fit(self, x, y, sample_weight=None):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        # validation rows are the last ones
+        sample_weight = sample_weight[:len(x)] if sample_weight is not None else None
         self.qrf_pars.update({k: getattr(self, k) for k in self.qrf_pars if hasattr(self, k)})
         if self.parallel:
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
-- 
2.43.0


From f80029070d1de2b6d41b555990870aca9bb9af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 071/125] fix: random Fourier features are scaled on the
 training rows only

---
 pyforecaster/forecasting_models/random_fourier_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 9ef6e30..b0b028c 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -349,8 +349,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
 
     def fit(self, x, y, **args):
         RandomFFRegressor.__init__(self, "rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         RandomFFRegressor.fit(self, x, y, **args)
         ScenarioGenerator.fit(self, x_val, y_val)
@@ -388,8 +388,8 @@ class AdditiveRFFRegression(ScenarioGenerator):
         """Boosting fit."""
         self.models = [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel, self.W, self.b)
                        for _ in range(self.n_models)]
-        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
         err = y.copy()
         for m in self.models:
-- 
2.43.0


From 8c339bcf832c9183a32e46e199e7e533a530583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:30 +0000
Subject: [PATCH 072/125] fix: BrutalRegressor forecasts are finite where the
 bootstrap left a bin empty

---
 pyforecaster/forecasting_models/random_fourier_features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index b0b028c..c463f72 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -39,7 +39,7 @@ def compute_coeffs(y, x, x_binned, n_bins):
             #y_diff = selected_y - y_means[j, :]
             #coeffs[j, :] = y_diff.T @ x_diff / (np.sum(x_diff ** 2) + 1e-12)
         else:
-            y_means[j, :] = np.nan  # or 0 if you prefer
+            y_means[j, :] = 0  # no sample in the bin: no correction
 
     return y_means, x_means, coeffs
 
-- 
2.43.0


From 7cb9d125a1d67067a5812812ccb4bbb1a4f0f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 073/125] fix: saved neural models keep their quantiles and
 error distributions

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..328a132 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -291,7 +291,8 @@ class NN(ScenarioGenerator):
 
     def get_serializable_properties(self):
         attrs = {}
-        for key, value in self.get_class_properties().items():
+        # the instance attributes include the quantiles and the error distributions of the ScenarioGenerator
+        for key, value in {**self.get_class_properties(), **self.__dict__}.items():
             if key in self._runtime_serialization_excludes():
                 continue
             try:
-- 
2.43.0


From 91d75c819e3296dd5063f97085d4b1f3f97503ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 074/125] fix: loaded input-convex networks optimize with their
 own learning rate

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..54ed527 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -312,12 +312,13 @@ class PICNN(NN):
                        })
 
         self.n_hidden_y = 2 * len(self.optimization_vars) if augment_ctrl_inputs else len(self.optimization_vars)
-        self.inverter_optimizer = inverter_class(learning_rate=self.inverter_learning_rate)
 
         super().__init__(learning_rate, batch_size, load_path, n_hidden_x, n_out, n_layers, pars, q_vect, val_ratio,
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
                          normalize_target, stopping_rounds, subtract_mean_when_normalizing, causal_df,
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
+        # a loaded model has its own learning rate
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
 
 
     def set_arch(self):
-- 
2.43.0


From 51412d53afba7bdf522985f8704ae666ca1e4e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 075/125] fix: predicted standard deviations are scaled but not
 shifted

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 328a132..5939019 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -472,7 +472,7 @@ class NN(ScenarioGenerator):
         if self.normalize_target:
             if self.probabilistic:
                 y_hat[:, :y_hat.shape[1]//2] = self.target_scaler.inverse_transform(y_hat[:, :y_hat.shape[1]//2])
-                y_hat[:, y_hat.shape[1] // 2:] = self.target_scaler.inverse_transform((y_hat[:, y_hat.shape[1] // 2:])**0.5)
+                y_hat[:, y_hat.shape[1] // 2:] = (y_hat[:, y_hat.shape[1] // 2:])**0.5 * self.target_scaler.scale_
             else:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
         if self.probabilistic:
-- 
2.43.0


From defc418346eeef22e44c63c1ab7adad0204510c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 076/125] fix: input-convex networks work when no input is
 normalized

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 54ed527..8df4e0e 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -353,8 +353,9 @@ class PICNN(NN):
     def get_normalized_inputs(self, inputs, target=None):
         inputs = inputs.copy()
         self.to_be_normalized = [c for c in inputs.columns if c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
-        normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
-        inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
+        if self.input_scaler is not None:
+            normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
+            inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
 
         x = inputs[[c for c in inputs.columns if not c in self.optimization_vars]].values
         y = inputs[self.optimization_vars].values
@@ -407,7 +408,8 @@ class PICNN(NN):
 
         inputs.loc[:, self.optimization_vars] = y.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
@@ -769,7 +771,8 @@ class LatentStructuredPICNN(PICNN):
 
         inputs.loc[:, self.optimization_vars] = ctrl.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
-- 
2.43.0


From 6679e8a5f599042378c7263845ffc10de6d56394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 077/125] fix: input-convex networks can be trained with a
 causality matrix

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 8df4e0e..fce3870 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -334,7 +334,7 @@ class PICNN(NN):
         if self.causal_df is not None:
             causal_df = (~self.causal_df.astype(bool)).astype(float)
             causal_matrix = np.tile(causal_df.values, 2) if self.probabilistic else causal_df.values
-            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind) \
+            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix) \
                 if not self.probabilistic else jitting_wrapper(probabilistic_causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind)
         else:
             self.loss_fn = jitting_wrapper(loss_fn, self.predict_batch) if not self.probabilistic else jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution)
-- 
2.43.0


From fe43e65b8f407461f5fff5b7582d35c0c5e7a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 078/125] fix: recurrent-stable networks accept augmented
 control inputs

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index fce3870..0969dd3 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -533,7 +533,8 @@ class RecStablePICNN(PICNN):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = PICNN_module(num_layers=self.n_layers, features_x=self.n_hidden_x, features_y=self.n_hidden_y,
                               features_out=self.n_out, features_latent=self.n_latent, activation=nn.relu,
-                              init_type=self.init_type, probabilistic=self.probabilistic,z_min=z_min,
+                              init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs,
+                              probabilistic=self.probabilistic,z_min=z_min,
                               z_max=z_max)
         self.predict_batch = vmap(jitting_wrapper(predict_batch_picnn, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution) if self.probabilistic else (
-- 
2.43.0


From a8b80bca28b64139217e8469c74037780c3b55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 079/125] fix: quantiles of the neural models are labelled like
 those of the other forecasters

---
 pyforecaster/forecasting_models/neural_models/INN.py     | 4 ++--
 pyforecaster/forecasting_models/neural_models/base_nn.py | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..e1f18e6 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -223,10 +223,10 @@ class CausalInvertibleNN(NN):
 
         return y_hat
 
-    def predict_quantiles(self, x, **kwargs):
+    def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 5939019..6e17139 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -444,7 +444,7 @@ class NN(ScenarioGenerator):
         n_instances = target.shape[0]
         y_hat = self.predict_batch(self.pars, inputs)
         if self.probabilistic:
-            q_hat = self.predict_quantiles(inputs, normalize=False)
+            q_hat = self.predict_quantiles(inputs, dataframe=False, normalize=False)
         # make the appropriate numbers of subplots disposed as a square
         fig, ax = plt.subplots(int(np.ceil(np.sqrt(n_instances))), int(np.ceil(np.sqrt(n_instances))), figsize=(10, 10),
                                layout='tight')
@@ -485,8 +485,7 @@ class NN(ScenarioGenerator):
         else:
             return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
 
-    def predict_quantiles(self, inputs, normalize=True, **kwargs):
-        inputs, _ = self.check_inputs(inputs, None)
+    def _predict_quantiles(self, inputs, normalize=True, **kwargs):
         if self.probabilistic:
             if normalize:
                 mu_hat, sigma_hat = self.predict(inputs, return_sigma=True)
@@ -503,7 +502,7 @@ class NN(ScenarioGenerator):
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
             for h in np.unique(inputs.index.hour):
-                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h] if self.conditional_to_hour else self.err_distr, 0)
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
-- 
2.43.0


From b34dd71f965a4290a43e8d4a4bcdb5f305818406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 080/125] fix: forecasts of the neural models are in the units
 of the target when the formatter normalizes it

---
 pyforecaster/forecasting_models/neural_models/INN.py     | 2 +-
 pyforecaster/forecasting_models/neural_models/base_nn.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index e1f18e6..52fbcf6 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -219,7 +219,7 @@ class CausalInvertibleNN(NN):
             if self.normalize_target:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
 
-        y_hat = pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
+        y_hat = self.anti_transform(inputs, pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns))
 
         return y_hat
 
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 6e17139..70d7ab2 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -481,9 +481,9 @@ class NN(ScenarioGenerator):
             if return_sigma:
                 return preds, sigmas
             else:
-                return preds
+                return self.anti_transform(inputs, preds)
         else:
-            return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
+            return self.anti_transform(inputs, pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns))
 
     def _predict_quantiles(self, inputs, normalize=True, **kwargs):
         if self.probabilistic:
@@ -499,6 +499,9 @@ class NN(ScenarioGenerator):
             preds = np.expand_dims(mu_hat, -1) * np.ones((1, 1, len(self.q_vect)))
             for i, q in enumerate(self.q_vect):
                 preds[:, :, i] += sigma_hat * np.sqrt(2) * erfinv(2*q-1)
+                if normalize:
+                    preds[:, :, i] = self.anti_transform(inputs, pd.DataFrame(preds[:, :, i], index=inputs.index,
+                                                                              columns=self.target_columns))
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
             for h in np.unique(inputs.index.hour):
-- 
2.43.0


From d91dbed7c255fca4a1a05fcbcbbdac741249d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 081/125] fix: the invertible network uses the requested number
 of prediction neurons

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 52fbcf6..a2a81eb 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -130,7 +130,7 @@ class CausalInvertibleNN(NN):
         self.set_attr({"names_exogenous": names_exogenous,
                        "end_to_end": end_to_end,
                        "n_prediction_layers": n_prediction_layers,
-                       "num_embedding_layers": n_hidden_y,
+                       "n_hidden_y": n_hidden_y,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
         assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
-- 
2.43.0


From 63def6b79e14f5fca918345acabda5dad55cb714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 082/125] fix: inverted embeddings keep their index

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index a2a81eb..5f360f6 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -169,7 +169,7 @@ class CausalInvertibleNN(NN):
         y_np = invert(self.pars, y.values, self.model)
         if self.input_scaler is not None:
             y_np = self.input_scaler.inverse_transform(y_np)
-        return pd.DataFrame(y_np, columns=y.columns)
+        return pd.DataFrame(y_np, index=y.index, columns=y.columns)
 
     def reorder_inputs(self, inputs):
         if self.n_exogenous > 0:
-- 
2.43.0


From 3dac49c3bfc539603a3f26cebe69ae85b7cce413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 083/125] fix: linloglin_inverse does not overflow for large
 values

---
 pyforecaster/forecasting_models/neural_models/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 14b7e46..c903145 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -61,10 +61,10 @@ def linloglin_inverse(y: jnp.ndarray, k=10) -> jnp.ndarray:
     left_linear_inv = (y + q) / m
 
     # Inverse of the left logarithmic part
-    left_log_inv = 1 - jnp.exp(-y)
+    left_log_inv = 1 - jnp.exp(-jnp.clip(y, -jnp.log(k + 1), 0))
 
     # Inverse of the right logarithmic part
-    right_log_inv = jnp.exp(y) - 1
+    right_log_inv = jnp.exp(jnp.clip(y, 0, jnp.log(k + 1))) - 1
 
     # Inverse of the right linear part
     right_linear_inv = (y - q) / m
-- 
2.43.0


From 6aec1960a3633185c1c66994e603ff3ad553da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 084/125] fix: refitted networks do not optimize with the
 previous parameters

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 70d7ab2..928b140 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -346,6 +346,9 @@ class NN(ScenarioGenerator):
             self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
                                  .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
 
+        # the compiled optimization of the inputs refers to the previous parameters
+        self.iterate = None
+
         rel_tol = rel_tol if rel_tol is not None else self.rel_tol
         n_epochs = n_epochs if n_epochs is not None else self.n_epochs
         stats_step = stats_step if stats_step is not None else self.stats_step
-- 
2.43.0


From 9269c70508ea6155e1213f1b5f089ee5d02ac80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 085/125] fix: optimizing the inputs returns the best point
 found, with its objective

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 0969dd3..7a142e5 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -391,16 +391,25 @@ class PICNN(NN):
             self.iterate = iterate
 
         opt_state = self.inverter_optimizer.init(y)
+        values_init = np.array(_objective(y, x, **objective_kwargs))
+        y_best, values_best = y, values_init
         y, values_old = self.iterate(x, y, opt_state, **objective_kwargs)
-        values_init = np.copy(values_old)
 
         # do 10 iterations at a time to speed up, check for convergence
         for i in range(n_iter//10):
+            # the last update of the optimizer can be worse than the previous ones: keep the best point
+            values_y = np.array(_objective(y, x, **objective_kwargs))
+            if values_y < values_best:
+                y_best, values_best = y, values_y
             y, values = self.iterate(x, y, opt_state, **objective_kwargs)
             rel_improvement = (values_old - values) / (np.abs(values_old)+ 1e-12)
             values_old = values
             if rel_improvement < rel_tol:
                 break
+        values = np.array(_objective(y, x, **objective_kwargs))
+        if values < values_best:
+            y_best, values_best = y, values
+        y, values = y_best, values_best
 
         print('optimization terminated at iter {}, final objective value: {:0.2e} '
                          'rel improvement: {:0.2e}'.format((i+1)*10, values,
-- 
2.43.0


From 7da9fa00e5702db96d64880cef4cd2c652f3cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:51 +0000
Subject: [PATCH 086/125] fix: probabilistic input-convex networks accept any
 number of latent features

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7a142e5..ae11692 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -148,11 +148,13 @@ class PICNN_module(nn.Module):
             u = x.copy()
             sigma_len = 1 if self.structured else self.features_out
             sigma = jnp.zeros(sigma_len)  # Initialize z_0 to be the same shape as y
+            # the gates of the hidden layers, which have sigma_len outputs: one for each of them or a common one
+            sigma_latent = 1 if self.features_latent == 1 else sigma_len
             for i in range(self.num_layers):
                 prediction_layer = i == self.num_layers - 1
                 u, sigma = PICNNLayer(features_x=self.features_x, features_y=self.features_y,
                                   features_out=sigma_len,
-                                  features_latent=self.features_latent,
+                                  features_latent=sigma_latent,
                                       prediction_layer=prediction_layer, activation=self.activation,
                                   rec_activation=self.rec_activation, init_type=self.init_type,
                                   augment_ctrl_inputs=self.augment_ctrl_inputs,
-- 
2.43.0


From ffac7c488d1f1f18a27059213f723da018652bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 087/125] fix: neural models are scaled on the training rows
 only

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 928b140..1c388c9 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -342,6 +342,8 @@ class NN(ScenarioGenerator):
     def fit(self, inputs, targets, n_epochs=None, savepath_tr_plots=None, stats_step=None, rel_tol=None):
         self.to_be_normalized = [c for c in inputs.columns if
                                  c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
+        # the held out rows are not used to scale the inputs and the targets
+        inputs, targets, inputs_val_0, targets_val_0 = self.train_val_split(inputs, targets)
         if len(self.to_be_normalized) > 0:
             self.input_scaler = (StandardScaler(with_mean=self.subtract_mean_when_normalizing)
                                  .set_output(transform='pandas').fit(inputs[self.to_be_normalized]))
@@ -356,7 +358,6 @@ class NN(ScenarioGenerator):
         if self.normalize_target:
             self.target_scaler = StandardScaler().set_output(transform='pandas').fit(targets)
 
-        inputs, targets, inputs_val_0, targets_val_0 = self.train_val_split(inputs, targets)
         training_len = inputs.shape[0]
         validation_len = inputs_val_0.shape[0]
 
-- 
2.43.0


From 467c614ec2f2f62a26fd897e830a4b8a5c64e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 088/125] fix: probabilistic networks without target
 normalization return standard deviations

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 1c388c9..80c5c9a 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -473,10 +473,13 @@ class NN(ScenarioGenerator):
         x, _ = self.check_inputs(x, None)
         y_hat = self.predict_batch(self.pars, x)
         y_hat = np.array(y_hat)
+        if self.probabilistic:
+            # the network predicts the variance
+            y_hat[:, y_hat.shape[1] // 2:] = y_hat[:, y_hat.shape[1] // 2:] ** 0.5
         if self.normalize_target:
             if self.probabilistic:
                 y_hat[:, :y_hat.shape[1]//2] = self.target_scaler.inverse_transform(y_hat[:, :y_hat.shape[1]//2])
-                y_hat[:, y_hat.shape[1] // 2:] = (y_hat[:, y_hat.shape[1] // 2:])**0.5 * self.target_scaler.scale_
+                y_hat[:, y_hat.shape[1] // 2:] = y_hat[:, y_hat.shape[1] // 2:] * self.target_scaler.scale_
             else:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
         if self.probabilistic:
-- 
2.43.0


From 10936a429499a0fac08d73d0f1d864a4068ed308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:11 +0000
Subject: [PATCH 089/125] fix: quasi-convex networks accept any number of
 latent features

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index ae11692..adaa4ac 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -248,10 +248,12 @@ class PartiallyIQCNN_module(nn.Module):
     def __call_wrapper__(self, y, x):
         u = x
         z = jnp.ones(self.features_out)  # Initialize z_0 to be the same shape as y
+        # the gates of the layers, which have features_out outputs: one for each of them or a common one
+        features_latent = 1 if self.features_latent == 1 else self.features_out
         for i in range(self.num_layers):
             prediction_layer = i == self.num_layers -1
             u, z = PICNNLayer(features_x=self.features_x, features_y=self.features_y, features_out=self.features_out,
-                              features_latent=self.features_latent,
+                              features_latent=features_latent,
                               prediction_layer=prediction_layer, activation=self.activation,
                               init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs,
                               layer_normalization=self.layer_normalization, z_min=self.z_min,
-- 
2.43.0


From 6b06bb6c57d768b59e0f929f23601ab729a98e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 090/125] fix: training latent networks does not diverge when
 an embedding is inactive

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index adaa4ac..8e94264 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -62,7 +62,7 @@ def embedded_loss_fn(params, inputs, targets, model=None, full_model=None):
     #output_grads_wrt_embedding = vmap(lambda ctrl_emb, exog: jax.jacfwd(lambda ctrl_emb: latent_pred(params, full_model, exog, ctrl_emb).ravel())(ctrl_emb), in_axes=(0, 0))(ctrl_embedding, inputs[0]).squeeze()
     #conic_loss = jnp.mean((output_grads_wrt_embedding-2*ctrl_embedding) ** 2)
     kl_gaussian_loss = jnp.mean(jnp.mean(ctrl_embedding**2, axis=0) + jnp.mean(ctrl_embedding, axis=0)**2
-                                - jnp.log(jnp.mean(ctrl_embedding**2, axis=0)) - 1) # (sigma^2 + mu^2 - log(sigma^2) - 1)/2
+                                - jnp.log(jnp.mean(ctrl_embedding**2, axis=0) + 1e-8) - 1) # (sigma^2 + mu^2 - log(sigma^2) - 1)/2
 
     return target_loss + ctrl_reconstruction_loss + kl_gaussian_loss + 100*obj_reconstruction_loss
 
-- 
2.43.0


From 8ad223c70400e4fdf6379402453adc8f389c9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 091/125] fix: the log-normal score and its gradients are
 finite for small variances

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 80c5c9a..cf90ba6 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -68,7 +68,7 @@ def probabilistic_loss(y_hat, y, sigma_square, kind='maximum_likelihood', distri
 
             # we have predicted the mean of the log-normal distribution, we need to recover the parameter mu
             mu = jnp.log(y_hat**2 / jnp.sqrt(jnp.abs(sigma_square) + y_hat**2))
-            sigma_square = jnp.log(1 + sigma**2 / y_hat**2)
+            sigma_square = jnp.log1p(sigma**2 / y_hat**2)
             sigma = jnp.sqrt(sigma_square)
 
             # Standardize the observed value
-- 
2.43.0


From 3da9e760b32e8ad29082d7708d3641b5ab552ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 092/125] fix: the log-normal score with negative skew is the
 score of the mirrored distribution

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index cf90ba6..70241ac 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -71,13 +71,16 @@ def probabilistic_loss(y_hat, y, sigma_square, kind='maximum_likelihood', distri
             sigma_square = jnp.log1p(sigma**2 / y_hat**2)
             sigma = jnp.sqrt(sigma_square)
 
+            # negative skew: the distribution is mirrored around its median
+            y = s*y + 2*jnp.exp(mu)*(s==-1)
+
             # Standardize the observed value
-            z = (jnp.log(jnp.maximum(1e-10, s*y + 2*jnp.exp(mu)*(s==-1))) - mu) / sigma
+            z = (jnp.log(jnp.maximum(1e-10, y)) - mu) / sigma
 
             # Compute the CRPS using the closed-form expression
             cdf_2 = jax.scipy.stats.norm.cdf(sigma / jnp.sqrt(2))
-            cdf_1 = (s==-1) + s * jax.scipy.stats.norm.cdf(z - sigma)
-            cdf = (s==-1) + s * jax.scipy.stats.norm.cdf(z)
+            cdf_1 = jax.scipy.stats.norm.cdf(z - sigma)
+            cdf = jax.scipy.stats.norm.cdf(z)
 
             crps = y * (2 * cdf - 1) - 2 * jnp.exp(mu + jnp.abs(sigma_square) / 2) * (
                         cdf_1 + cdf_2 - 1)
-- 
2.43.0


From a8e40bbeb451f4fb363d3cfe4645136454368b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 093/125] fix: trees with given nodes can be built from few
 scenarios

---
 pyforecaster/tree_builders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index dc11928..1ec6932 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -65,14 +65,16 @@ class ScenarioTree:
         return tree, tree_scens, tree_vals
 
     def gen_init_tree(self, scens, nodes_at_step=None):
+        if nodes_at_step is None:
+            nodes_at_step = self.nodes_at_step
+
         if nodes_at_step is None:
             geometric_steps = np.array([2**t for t in range(int(np.log(scens.shape[1])/np.log(2)))][2:])
             geometric_progression = np.floor(np.logspace(-1, np.log(len(geometric_steps))/np.log(10), scens.shape[0])).astype(int)
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
             geometric_nodes = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
-            nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
-                geometric_nodes
+            nodes_at_step = geometric_nodes
 
         nodes_at_step = np.array(nodes_at_step)  # do not modify the caller's nodes
         if len(nodes_at_step) == scens.shape[0]-1:
-- 
2.43.0


From eda10c0223e6b6a7fce0980919e022c14f4cb448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 094/125] fix: statsmodels forecasts of a row use its own
 observation, as the residuals assume

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index b03e188..739e91f 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -8,13 +8,14 @@ from pyforecaster.forecasting_models.holtwinters import hankel
 def get_forecasts(model, y_te, x_te, n_step_ahead=24):
   y_hat = np.zeros((len(y_te), n_step_ahead))
   for i in tqdm(range(len(y_te))):
-    y_hat[i,:] = model.forecast(n_step_ahead)
     exog = x_te.iloc[[i]].values if x_te is not None else None
     try:
         model = model.append(y_te.iloc[[i]], exog=exog) # this method UPDATES the model with the last observation
     except:
         print('Error in updating the model')
         model = model.apply(y_te.iloc[[i]], exog=exog)  # this method UPDATES the model with the last observation
+    # as in the target, the first step ahead of row i is the one after observation i
+    y_hat[i, :] = model.forecast(n_step_ahead)
   return pd.DataFrame(y_hat, index=y_te.index)
 
 
-- 
2.43.0


From 4a6ac644da62fefcc3f35230293c095889257b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 095/125] fix: statsmodels predictions keep the seasonal phase
 when the data does not follow the training set

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index 739e91f..39799a5 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -5,8 +5,17 @@ from statsmodels.tsa.statespace import exponential_smoothing
 from tqdm import tqdm
 from pyforecaster.forecasting_models.holtwinters import hankel
 
+def state_at(model, start):
+    # the fitted model right before start: training observations after start are dropped, unobserved rows are missing
+    endog = model.model.data.orig_endog
+    past = endog.reindex(pd.date_range(endog.index[0], start, freq=endog.index.freq, inclusive='left'))
+    return model.apply(past) if len(past) > 0 else model
+
+
 def get_forecasts(model, y_te, x_te, n_step_ahead=24):
   y_hat = np.zeros((len(y_te), n_step_ahead))
+  if x_te is None:
+    model = state_at(model, y_te.index[0])
   for i in tqdm(range(len(y_te))):
     exog = x_te.iloc[[i]].values if x_te is not None else None
     try:
-- 
2.43.0


From eaca8a458f355764814809f14f6c4d75995ac57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 096/125] fix: missing values do not empty the statsmodels
 error distribution

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index 39799a5..1b4faf1 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -47,7 +47,7 @@ class StatsModelsWrapper(ScenarioGenerator):
         # hankelize the target
         hw_target = hankel(y_present[1:], self.n_sa)
         resid = hw_target - preds
-        self.err_distr = np.quantile(resid, self.q_vect, axis=0).T
+        self.err_distr = np.nanquantile(resid, self.q_vect, axis=0).T
         self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
 
     def predict(self, x_pd:pd.DataFrame, **kwargs):
-- 
2.43.0


From 227df35d5b4790847facf6d6f5f8889d53e6ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 097/125] fix: statsmodels predictions carry the same labels as
 their quantiles

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index 1b4faf1..c20e112 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -46,7 +46,7 @@ class StatsModelsWrapper(ScenarioGenerator):
 
         # hankelize the target
         hw_target = hankel(y_present[1:], self.n_sa)
-        resid = hw_target - preds
+        resid = hw_target - preds.values
         self.err_distr = np.nanquantile(resid, self.q_vect, axis=0).T
         self.target_cols = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
 
@@ -75,5 +75,6 @@ class ExponentialSmoothing(StatsModelsWrapper):
         x_pd = x_pd.asfreq(pd.infer_freq(x_pd.index))
         y = x_pd[self.target_name]
         y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None)
+        y_hat.columns = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
         return y_hat
 
-- 
2.43.0


From aaadbb9cbfd58fb31172d10b19dc1b419ad3dbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 098/125] fix: LSTM forecasts use the newest observation and
 are labelled with it

---
 pyforecaster/forecasting_models/neural_models/LSTM_bidir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
index 3485f03..506a78c 100644
--- a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
+++ b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
@@ -107,7 +107,7 @@ class LSTM_Forecaster(ScenarioGenerator):
         scaled_target = self.target_scaler.transform(target_series).flatten()
         scaled_exog = self.exog_scaler.transform(exog_df.values)
 
-        total_samples = len(df) - self.lstm_history
+        total_samples = len(df) - self.lstm_history + 1
 
         X_seq = np.lib.stride_tricks.sliding_window_view(scaled_target, window_shape=self.lstm_history)
         X_seq = np.expand_dims(X_seq[:total_samples], axis=2)
@@ -119,7 +119,7 @@ class LSTM_Forecaster(ScenarioGenerator):
 
         # encapsulate predictions in a DataFrame with the same index as the input DataFrame
         columns = np.array([self.target_name + f'_{i+1}' for i in range(self.pred_horizon)])
-        preds = pd.DataFrame(preds, index=df.index[self.lstm_history:], columns=columns)
+        preds = pd.DataFrame(preds, index=df.index[self.lstm_history - 1:], columns=columns)
 
 
         return preds
\ No newline at end of file
-- 
2.43.0


From 1d7c457c1b5f542f5dff9c467c064960464bb3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 099/125] fix: LSTM fit returns the forecaster

---
 pyforecaster/forecasting_models/neural_models/LSTM_bidir.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
index 506a78c..a217e75 100644
--- a/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
+++ b/pyforecaster/forecasting_models/neural_models/LSTM_bidir.py
@@ -97,6 +97,7 @@ class LSTM_Forecaster(ScenarioGenerator):
             callbacks=[early_stop],
             **kwargs
         )
+        return self
 
     def predict(self, df, **kwargs):
         assert len(df) >= self.lstm_history, "Dataframe too short for LSTM history"
-- 
2.43.0


From f799d6a28e71387d3c89f25ea780ebace3e99bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 100/125] fix: plot styles have the names matplotlib gives them

---
 pyforecaster/plot_utils.py | 4 ++--
 pyforecaster/stat_utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 356bfa1..2df729e 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -11,7 +11,7 @@ import networkx as nx
 from pyforecaster.scenred import plot_from_graph
 from pyforecaster.forecaster import ScenarioGenerator
 
-def basic_setup(subplots_tuple, width, height, b=0.15, l=0.15, w=0.22, r=None, style ='seaborn', **kwargs):
+def basic_setup(subplots_tuple, width, height, b=0.15, l=0.15, w=0.22, r=None, style ='seaborn-v0_8', **kwargs):
     plt.style.use(style)
     fig, ax = plt.subplots(subplots_tuple[0], subplots_tuple[1], figsize=(width, height), **kwargs)
     plt.subplots_adjust(bottom=b, left=l, wspace=w, right=r)
@@ -45,7 +45,7 @@ def remove_ticks(axes, coord='y', target='labels'):
                 ax.set_yticklabels([])
 
 
-def jointplot(df, x: str, y: str, grid_steps=4, style='seaborn', fig=None):
+def jointplot(df, x: str, y: str, grid_steps=4, style='seaborn-v0_8', fig=None):
 
     if fig is None:
         fig = plt.figure()
diff --git a/pyforecaster/stat_utils.py b/pyforecaster/stat_utils.py
index e28bba1..3e2eb62 100644
--- a/pyforecaster/stat_utils.py
+++ b/pyforecaster/stat_utils.py
@@ -26,7 +26,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
     summary = pd.DataFrame({})
 
     if save_plots_dir:
-        fig, ax = basic_setup((1,1), 4, 3, b=0.2, l=0.2, style='seaborn-paper')
+        fig, ax = basic_setup((1,1), 4, 3, b=0.2, l=0.2, style='seaborn-v0_8-paper')
         colors = plt.get_cmap('plasma_r', len(sample_at))
 
     for i, n_s in enumerate(sample_at):
@@ -48,7 +48,7 @@ def bootstrap(series, stat_fun, save_plots_dir=None, n_sampling=4000):
         plt.savefig(join(save_plots_dir, 'bootstrap_rectified_qq_plot.pdf'))
 
         pal = "Set2"
-        fig, ax = basic_setup((1,1), 4, 3, b=0.2, l=0.2, style='seaborn-paper')
+        fig, ax = basic_setup((1,1), 4, 3, b=0.2, l=0.2, style='seaborn-v0_8-paper')
         #pt.half_violinplot(data=history, x='bootsrtap samples', y='stats', palette=pal, bw=.2)
         sb.stripplot(data=history, x='bootsrtap samples', y='stats', s=2, palette=pal)
         ax.set_xticklabels(ax.get_xticklabels(), rotation=30)
-- 
2.43.0


From 28e29cac3043b9a4fe347058637e0bfa5009ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 101/125] fix: plotting a score table does not relabel the
 caller's table

---
 pyforecaster/plot_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 2df729e..c96bb2b 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -76,6 +76,7 @@ def plot_summary_score(df, width=4.5, height=3, x_label='step ahead [-]', y_labe
                        colorbar_label='score',  b=0.15, l=0.2, w=0.22, font_scale=0.8, interval_to_ints=True,
                        numeric_xticks=False, rotation_deg=None, ax=None, label_specs=None, **kwargs):
 
+    df = df.copy()
     if interval_to_ints and np.all([isinstance(i, pd.Interval) for i in df.index]):
         int_intervals = [pd.Interval(i.left.astype(int), i.right.astype(int)) for i in df.index]
         df.index = int_intervals
-- 
2.43.0


From 5935d553a760813f49767f18be0905e31f504a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 102/125] fix: score tables with fewer than seven columns can
 be plotted

---
 pyforecaster/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index c96bb2b..0d6cc44 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -114,7 +114,7 @@ def plot_summary_score(df, width=4.5, height=3, x_label='step ahead [-]', y_labe
         ax.set_yticklabels(ax.get_yticklabels(), rotation=rotation_deg, va='top')
 
     # take only 7 xticks
-    step = int(len(df.columns) / 7)
+    step = max(1, int(len(df.columns) / 7))
     ax.set_xticks(ax.get_xticks()[::step])
     if numeric_xticks:
         ax.set_xticks(np.linspace(0, len(df.columns), 7))
-- 
2.43.0


From bd870028d8ebe04071be67e392c21e71ebd2294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 103/125] fix: interval labels unified by mean are the interval
 centers

---
 pyforecaster/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 0d6cc44..6eb3da2 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -94,7 +94,7 @@ def plot_summary_score(df, width=4.5, height=3, x_label='step ahead [-]', y_labe
                 if v['unify'] == 'left':
                     idx = [i.left for i in idx]
                 elif v['unify'] == 'mean':
-                    idx = [np.mean(i.left + i.right) for i in idx]
+                    idx = [(i.left + i.right) / 2 for i in idx]
 
 
             if k == 'y':
-- 
2.43.0


From 126dc36f55b475092917d3ec561ffe87ce6b355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 104/125] fix: plotting quantiles does not replace the caller's
 signals

---
 pyforecaster/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 6eb3da2..4032db5 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -284,7 +284,7 @@ def plot_quantiles(signals, qs, labels, n_rows=50, interval=1, step=1, repeat=Fa
     n_rows = np.minimum(int(np.floor(signals[0].shape[0]/step)), n_rows)
     qs = ScenarioGenerator().quantiles_to_numpy(qs) if isinstance(qs, pd.DataFrame) else qs
     fig, ax = plt.subplots(1, **kwargs)
-    signals = signals if isinstance(signals, list) else [signals]
+    signals = list(signals) if isinstance(signals, list) else [signals]
     t = np.arange(signals[0].shape[1])
     lines= []
     for i, s in enumerate(signals):
-- 
2.43.0


From 0e7b6cbf5edc597693081a1085f6ead0a31c9429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 105/125] fix: the dataset of a step ahead can be plotted with
 more than one source signal

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 43cc179..04ed0db 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -538,7 +538,7 @@ class Formatter:
             plt.plot(np.hstack([metadata['start_time'].min().total_seconds(), metadata['end_time'].max().total_seconds()]), np.hstack([0, 0]), linestyle='')
             k = 0
             for i, feature in enumerate(metadata['name'].unique()):
-                metadata_filt = metadata.loc[metadata['name'] == feature].loc[x_i.columns]
+                metadata_filt = metadata.loc[(metadata['name'] == feature) & metadata.index.isin(x_i.columns)]
                 for _, var in metadata_filt.iterrows():
                     k += 1
                     plt.plot(np.hstack([var['start_time'].total_seconds(), var['end_time'].total_seconds()]), np.hstack([k, k]), label=feature, alpha=0.5)
-- 
2.43.0


From a84e49f389cdab80bada7be172368cfeedfabd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 106/125] fix: quantiles can be plotted together with a single
 signal table

---
 pyforecaster/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/plot_utils.py b/pyforecaster/plot_utils.py
index 4032db5..989dc38 100644
--- a/pyforecaster/plot_utils.py
+++ b/pyforecaster/plot_utils.py
@@ -280,11 +280,11 @@ def ts_animation_bars(ys:list, start_t:list, end_t:list, frames=150, ax_labels=N
 
 def plot_quantiles(signals, qs, labels, n_rows=50, interval=1, step=1, repeat=False, ax_labels=None, legend_kwargs={},
                    remove_spines=True, savepath=None, **kwargs):
+    signals = list(signals) if isinstance(signals, list) else [signals]
     n_max = np.minimum(signals[0].shape[0], int(n_rows*step))
     n_rows = np.minimum(int(np.floor(signals[0].shape[0]/step)), n_rows)
     qs = ScenarioGenerator().quantiles_to_numpy(qs) if isinstance(qs, pd.DataFrame) else qs
     fig, ax = plt.subplots(1, **kwargs)
-    signals = list(signals) if isinstance(signals, list) else [signals]
     t = np.arange(signals[0].shape[1])
     lines= []
     for i, s in enumerate(signals):
-- 
2.43.0


From 5540bdb6e47c955027c47e36a884c0359add421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 107/125] fix: the dataset of a step ahead can be plotted
 without naming metadata features

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 04ed0db..36073a5 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -530,7 +530,7 @@ class Formatter:
         import matplotlib.pyplot as plt
         plt.figure()
         for target_col_num in np.arange(n_target):
-            x_i = self.prune_dataset_at_stepahead(df, target_col_num, metadata_features=metadata_features, method=method,
+            x_i = self.prune_dataset_at_stepahead(df, target_col_num, metadata_features=metadata_features or [], method=method,
                                                  period=period, keep_last_n_lags=keep_last_n_lags,
                                                  keep_last_seconds=keep_last_seconds,
                                                  tol_period=tol_period)
-- 
2.43.0


From 9c117d4c400104f10c61e300d7dbaf5afacac235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 108/125] fix: keep the correlation order of the features of
 each signal in the global form

---
 pyforecaster/formatter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 36073a5..7586825 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -640,14 +640,16 @@ class Formatter:
                 # reorder columns by correlation with first target
                 transformed_cols_names = tr.metadata.loc[tr.metadata['name']==v].index
                 if corr_reorder:
-                    if y.empty:
-                        transformed_cols_names_reordered = tr.reordered_cols_names_dict[v]
-                        x.loc[:, transformed_cols_names] = x.loc[:, transformed_cols_names_reordered].values
-                    else:
-                        corr = x[transformed_cols_names].corrwith(y.iloc[:, 0])
-                        transformed_cols_names_reordered = corr.sort_values(ascending=False).index
-                        tr.reordered_cols_names_dict[v] = transformed_cols_names_reordered
-                        x.loc[:, transformed_cols_names] = x.loc[:, transformed_cols_names_reordered].values
+                    # each signal has its own order, which must be kept at prediction time
+                    for signal in x['name'].unique():
+                        filt = (x['name'] == signal).values
+                        if y.empty:
+                            transformed_cols_names_reordered = tr.reordered_cols_names_dict[(signal, v)]
+                        else:
+                            corr = x.loc[filt, transformed_cols_names].corrwith(y.loc[filt].iloc[:, 0])
+                            transformed_cols_names_reordered = corr.sort_values(ascending=False).index
+                            tr.reordered_cols_names_dict[(signal, v)] = transformed_cols_names_reordered
+                        x.loc[filt, transformed_cols_names] = x.loc[filt, transformed_cols_names_reordered].values
         xs.append(x)
         ys.append(y)
         return xs, ys
-- 
2.43.0


From 675293780e02a2970a93e7627ab9f6033519c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 109/125] fix: do not ignore nodes_at_step when the trees are
 not reduced online

---
 pyforecaster/forecaster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index cd27bd8..4df20f6 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -319,7 +319,7 @@ class ScenarioGenerator(BaseEstimator):
             predictions = self.predict(x, **predict_q_kwargs)
 
             trees = self.scengen.predict_trees(predictions=predictions, n_scen=n_scen, x=x, init_obs=init_obs,
-                                         random_state=random_state)
+                                         nodes_at_step=nodes_at_step, random_state=random_state)
 
         # if we predicted just one step just return a nx object, not a list
         if len(trees) == 1:
-- 
2.43.0


From f1a655806909fefe06285f6cc1c4e0fddd2aa824 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 110/125] fix: fit the trees of one step ahead forecasts

---
 pyforecaster/scenarios_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 72790f7..162d975 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -65,7 +65,7 @@ class ScenGen:
                     init_obs = 0 if self.additional_node else None
                     scenarios = self.sample_scenarios(y_h, n_scen, err_distr[h], init_obs=init_obs, **copula_kwargs)
                     start_tree = self.trees[0] if h>0 else None
-                    self.trees[h], _, _, _ = self.tree.gen_tree(np.squeeze(scenarios), k_max=self.k_max, start_tree=start_tree, nodes_at_step=self.tree.nodes_at_step)
+                    self.trees[h], _, _, _ = self.tree.gen_tree(np.squeeze(scenarios, axis=0), k_max=self.k_max, start_tree=start_tree, nodes_at_step=self.tree.nodes_at_step)
             else:
                 raise NotImplementedError('pre-fit currently not available for copulas other than HourlyGaussianCopula')
 
-- 
2.43.0


From ce5f1979eb7035defa7556ff3fec5aa5d1c58a11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 111/125] fix: draw the noise of the scenarios from the
 requested random state

---
 pyforecaster/scenarios_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/scenarios_generator.py b/pyforecaster/scenarios_generator.py
index 162d975..60be98d 100644
--- a/pyforecaster/scenarios_generator.py
+++ b/pyforecaster/scenarios_generator.py
@@ -8,6 +8,7 @@ import pyforecaster.dictionaries
 import numpy as np
 from inspect import signature
 from copy import deepcopy
+from sklearn.utils import check_random_state
 from multiprocessing import cpu_count
 import concurrent
 from tqdm import tqdm
@@ -159,6 +160,8 @@ class ScenGen:
 
         # copula samples of dimension n_obs, n_steps, n_scen
         copula_samples = self.copula.sample(x, n_scen, **copula_kwargs)
+        random_state = copula_kwargs.get('random_state')
+        rng = random_state if isinstance(random_state, np.random.Generator) else check_random_state(random_state)
 
         if self.additional_node:
             scenarios = np.zeros((quantiles.shape[0], quantiles.shape[1] + 1, n_scen))
@@ -166,7 +169,7 @@ class ScenGen:
             assert len(init_obs) == scenarios.shape[0], 'length of init_obs was {}, while should have been equal to ' \
                                                         '{}'.format(len(init_obs), scenarios.shape[0])
             for t, init_o in enumerate(init_obs):
-                scenarios[t, 0, :] = init_o + np.random.rand(n_scen)*1e-6
+                scenarios[t, 0, :] = init_o + rng.uniform(size=n_scen)*1e-6
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, 1:, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
@@ -175,7 +178,7 @@ class ScenGen:
             # for each temporal observation, generate scenarios from copula samples
             for t, copula_sample_t, quantiles_t in zip(range(len(copula_samples)), copula_samples, quantiles):
                 scenarios[t, :] = interp_scens(copula_sample_t, quantiles_t, self.q_vect)
-        return scenarios + np.random.randn(*scenarios.shape)*1e-9
+        return scenarios + rng.normal(size=scenarios.shape)*1e-9
 
 
 def tree_gen_chunk(predictions, trees):
-- 
2.43.0


From 4b6fb4c102fa079014f738fca539c2382b50a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 112/125] fix: pass the parameters of the scenario generator
 set on a model to its scenario generator

---
 pyforecaster/forecaster.py                               | 9 +++++++++
 pyforecaster/forecasting_models/neural_models/base_nn.py | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 4df20f6..4e6fe33 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -75,6 +75,7 @@ class ScenarioGenerator(BaseEstimator):
         self.scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=nodes_at_step, additional_node=additional_node, **scengen_kwgs)
         self.nodes_at_step = nodes_at_step
         self._scengen_kwgs = dict(scengen_kwgs)
+        self._update_scengen = False
         self.val_ratio = val_ratio
         self.err_distr = {}
         self.logger = get_logger(name='Forecaster', level='WARNING') if logger is None else logger
@@ -95,6 +96,10 @@ class ScenarioGenerator(BaseEstimator):
 
     def set_params(self, **kwargs):
         [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        # the parameters of the scenario generator take effect at the next fit
+        scengen_pars = (set(signature(ScenGen).parameters) | set(self._scengen_kwgs)) & set(kwargs)
+        self._scengen_kwgs.update({k: kwargs[k] for k in scengen_pars if k not in self.__dict__.keys()})
+        self._update_scengen = self._update_scengen or len(scengen_pars) > 0
 
     def get_params(self, **kwargs):
         parameters = signature(self.__class__).parameters
@@ -223,6 +228,10 @@ class ScenarioGenerator(BaseEstimator):
         return np.quantile(errs, self.q_vect, axis=0).T
 
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
+        if self._update_scengen:
+            self.scengen = ScenGen(q_vect=self.q_vect, nodes_at_step=self.nodes_at_step,
+                                   additional_node=self.additional_node, **self._scengen_kwgs)
+            self._update_scengen = False
         y = self.anti_transform(x, y)
         self.target_cols = y.columns
         x, y = self._maybe_subsample_for_scengen(x, y)
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 70241ac..383dc7d 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -311,7 +311,7 @@ class NN(ScenarioGenerator):
             pk.dump(attrdict, f, protocol=pk.HIGHEST_PROTOCOL)
 
     def set_params(self, **kwargs):
-        [self.__setattr__(k, v) for k, v in kwargs.items() if k in self.__dict__.keys()]
+        super().set_params(**kwargs)
         self.set_arch()
 
     def set_attr(self, attrdict):
-- 
2.43.0


From 0d7c05498b2430d1e4e21b313a24f90a60801466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 113/125] fix: do not denormalize the caller's quantiles in
 place

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 7586825..66c7127 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -350,7 +350,7 @@ class Formatter:
             self.logger.warning('You did not pass any denormalization expression, ** no denormalization will be applied **. '
                                 '\bYou can set a denormalization expression by calling Formatter.add_normalizing_fun ')
             return y
-        y, _ = self.normalize(x.copy(), y, normalizing_fun=self.denormalizing_fun)
+        y, _ = self.normalize(x.copy(), y.copy(), normalizing_fun=self.denormalizing_fun)
         return y
 
     def normalizing_wrapper(self, normalizing_fun, df, t):
-- 
2.43.0


From 60f43ade8cfbb5ebdf40fe109a19bd9f1cdcf22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 114/125] fix: reduce the memory of tables with categorical
 columns

---
 pyforecaster/big_data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5023cd0..2eb787c 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -127,7 +127,7 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
 
 def reduce_mem_usage_series(s):
     col_type = s.dtype
-    if col_type != object:
+    if isinstance(col_type, np.dtype) and col_type.kind in 'if':  # other types, e.g. categories, are kept
         c_min = s.min()
         c_max = s.max()
         if str(col_type)[:3] == 'int':
-- 
2.43.0


From 1a470d87e81b2eb0b90513c1044e4d60e5d1f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 115/125] fix: predict a few rows, or rows with gaps, with
 exponential smoothing

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index c20e112..2d32333 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -72,9 +72,9 @@ class ExponentialSmoothing(StatsModelsWrapper):
         return self
 
     def predict(self, x_pd:pd.DataFrame, **kwargs):
-        x_pd = x_pd.asfreq(pd.infer_freq(x_pd.index))
-        y = x_pd[self.target_name]
-        y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None)
+        # the frequency of a few rows, or of rows with gaps, can't be inferred: it's the one of the training set
+        y = x_pd.asfreq(self.model.model.data.orig_endog.index.freq)[self.target_name]
+        y_hat = get_forecasts(self.model, y, n_step_ahead=self.n_sa, x_te=None).loc[x_pd.index]
         y_hat.columns = [f'{self.target_name}_t+{i}' for i in range(1, self.n_sa+1)]
         return y_hat
 
-- 
2.43.0


From bf5944fd1df9687bd772a075cbd230d97adaeaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:32 +0000
Subject: [PATCH 116/125] fix: estimate discrete distributions of series
 crossing a clock change

---
 pyforecaster/forecasting_models/benchmarks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 9c219c3..9fe4196 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -95,7 +95,7 @@ class DiscreteDistr(ScenarioGenerator):
         print('support of target distribution:', support)
 
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = y.index.floor(sampling_time).time
+        time_of_day = y.index.tz_localize(None).floor(sampling_time).time
 
         # Group by this time of day and calculate the mean across all days
         mean_by_time_of_day = {}
@@ -122,7 +122,7 @@ class DiscreteDistr(ScenarioGenerator):
 
     def predict_probabilities(self, x, **kwargs):
         # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(self.sampling_time).time, index=x.index)
+        time_of_day = pd.Series(x.index.tz_localize(None).floor(self.sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From fafa25bfb7de627e544533e0f16511fa1d178fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 117/125] fix: draw different scenarios for rows of different
 hours when the random state is an integer

---
 pyforecaster/copula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index b15bebb..495023d 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -3,6 +3,7 @@ import numpy as np
 import logging
 from sklearn.covariance import GraphicalLasso, GraphicalLassoCV, ShrunkCovariance
 from scipy.stats import multivariate_normal, norm
+from sklearn.utils import check_random_state
 import matplotlib.pyplot as plt
 from pyforecaster.utilities import get_logger
 
@@ -81,6 +82,8 @@ class HourlyGaussianCopula(GaussianCopula):
         index = x.index
 
         copula_samples = np.zeros((len(index), self.dim, n_scen))
+        # one stream for all the hours: the same seed at each hour would repeat the same draws
+        rng = random_state if isinstance(random_state, np.random.Generator) else check_random_state(random_state)
         # retrieve covariances:
         for h in np.unique(index.hour):
             cov_h = self.pars[h]
@@ -90,7 +93,7 @@ class HourlyGaussianCopula(GaussianCopula):
             if sum(hour_filt) == 0:
                 continue
             else:
-                mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
+                mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=rng)
                 # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
                 if np.sum(hour_filt) == 1:
                     mvr_samples = np.expand_dims(mvr_samples, 0)
-- 
2.43.0


From e06b526988f33fee755a02bc75479baeac38c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 118/125] fix: predict the mean of the quantile forests when
 asked for it by name

---
 pyforecaster/forecasting_models/randomforests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index fbc143e..a075102 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -132,6 +132,8 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def predict(self, x, **kwargs):
         preds = []
+        if str(kwargs.get('quantiles')) == 'mean':
+            kwargs.pop('quantiles')  # the forests predict the mean by default
         period = kwargs['period'] if 'period' in kwargs else '24h'
         if self.parallel:
             with concurrent.futures.ThreadPoolExecutor(max_workers=self.max_parallel_workers) as executor:
-- 
2.43.0


From 7fcdb533e3aaf3416e633f0dd243f1b2eeaae340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 119/125] fix: accept the period in the predictions of quantile
 forests

---
 pyforecaster/forecasting_models/randomforests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index a075102..b957b4d 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -134,7 +134,7 @@ class QRF(ScenarioGenerator):
         preds = []
         if str(kwargs.get('quantiles')) == 'mean':
             kwargs.pop('quantiles')  # the forests predict the mean by default
-        period = kwargs['period'] if 'period' in kwargs else '24h'
+        period = kwargs.pop('period', '24h')
         if self.parallel:
             with concurrent.futures.ThreadPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 preds = [i for i in tqdm(executor.map(partial(self._predict, x=x, period=period, **kwargs), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From 35917bb3ab2181ad74ff9ddfabadb41b85d5117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 120/125] fix: sample one scenario when only one is asked for

---
 pyforecaster/copula.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 495023d..9861be5 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -93,13 +93,9 @@ class HourlyGaussianCopula(GaussianCopula):
             if sum(hour_filt) == 0:
                 continue
             else:
-                mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=rng)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # with one observation, scenario or target mvr.rvs has lower dimensionality
+                mvr_samples = np.reshape(mvr.rvs((np.sum(hour_filt), n_scen), random_state=rng),
+                                         (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 4043d9b194ff06944795b971c4ce008b6e42395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 121/125] fix: sample scenarios when the residuals of a step
 are constant

---
 pyforecaster/copula.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 9861be5..ab3ba10 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -63,7 +63,9 @@ class HourlyGaussianCopula(GaussianCopula):
                 est_cov = gl.covariance_ / np.outer(std, std)
             else:
                 raise ValueError('cov_est_method not recognized')
-            est_covs[h] = est_cov
+            # constant residuals (e.g. those of PV at night) are not correlated with the others
+            constant = np.ptp(x_h.values, axis=0) == 0
+            est_covs[h] = np.where(constant[:, None] | constant, np.eye(self.dim), est_cov)
 
         if do_plot:
             n = np.ceil(len(est_covs) ** 0.5).astype(int)
-- 
2.43.0


From 9a0988111e8c969d49231829affbbc1c91f5e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 122/125] fix: count each signal once below a node of a grouped
 hierarchy

---
 pyforecaster/reconciliation/reconciliation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 572f2d9..020a732 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -70,7 +70,8 @@ class HierarchicalReconciliation:
                 full_list.extend(sublist)
             else:
                 full_list.append(i)
-        return full_list
+        # a signal can be below more than one child of the node, e.g. in grouped hierarchies
+        return list(dict.fromkeys(full_list))
 
     @staticmethod
     def unroll_dict(hierarchy):
-- 
2.43.0


From 8a858d8181c5dcd00345b7bc5f269db5f2b0a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 123/125] fix: return the final values of the neural gas tree

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 1ec6932..f9224d9 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -187,7 +187,7 @@ class NeuralGas(ScenarioTree):
                     tree_scens[t, scen_filt] = jnp.mean(tree_scens[t, scen_filt])
             k += 1
 
-        update_tree_from_scenarios(tree, tree_idxs, tree_scens)
+        tree_vals = update_tree_from_scenarios(tree, tree_idxs, tree_scens)
 
         return tree, tree_scens, tree_idxs, tree_vals
 
-- 
2.43.0


From 7e45586af50685fe27e72ba060c7c43e16f70eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 124/125] fix: return the scenarios of the optimized tree

---
 pyforecaster/tree_builders.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index f9224d9..0172e51 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -246,6 +246,8 @@ class DiffTree(ScenarioTree):
             k +=1
 
         replace_var(tree, tree_vals)
+        # scenarios of the optimized tree, not of the starting one
+        tree_scens = np.vstack([np.asarray(tree_vals)[idx] for idx in tree_idxs])
         return tree, tree_scens, tree_idxs, tree_vals
 
 
-- 
2.43.0


From 9c787cbc81f6ed36d5e2b83645756c2e85b4345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:11 +0000
Subject: [PATCH 125/125] fix: keep the order of the shared signals of the
 global form in every process

---
 pyforecaster/formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 66c7127..28c15ec 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -598,13 +598,14 @@ class Formatter:
                                                                                      ' "target"'
         transformed_columns = [tr.names for tr in self.transformers]
         transformed_columns = [item for sublist in transformed_columns for item in sublist]
-        transformed_columns = list(set(np.unique(transformed_columns)) - {'target'})
+        # same order in every process
+        transformed_columns = [c for c in np.unique(transformed_columns) if c != 'target']
         # if x is multiindex pd.DataFrame do something
         if isinstance(x.columns, pd.MultiIndex):
             # find columns names at level 0 that contains the targets
             c_l_0 = x.columns.get_level_values(0).unique()
             private_cols_l0 = [c for c in c_l_0 if not np.all([str(t) in transformed_columns for t in x[c].columns])]
-            shared_cols_l0 = list(set(c_l_0) - set(private_cols_l0))
+            shared_cols_l0 = [c for c in c_l_0 if c not in private_cols_l0]
             x_shared = x[shared_cols_l0].droplevel(0, 1)
             dfs = []
             for p in private_cols_l0:
-- 
2.43.0

