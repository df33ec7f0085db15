From e253dbde31b2caf237d6e8c5f476878f98795a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 01/34] fix: draw one seed per dilation in the shapelet
 generators

numba keeps one random state per thread, and only the calling thread's state
was seeded: with several threads the shapelets depended on which thread
processed which dilation and on what it had drawn before.
---
 convst/transformers/_multivariate_same_length.py     | 9 ++++++++-
 convst/transformers/_multivariate_variable_length.py | 9 ++++++++-
 convst/transformers/_univariate_same_length.py       | 9 ++++++++-
 convst/transformers/_univariate_variable_length.py   | 9 ++++++++-
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/convst/transformers/_multivariate_same_length.py b/convst/transformers/_multivariate_same_length.py
index ba301be..b9be28c 100644
--- a/convst/transformers/_multivariate_same_length.py
+++ b/convst/transformers/_multivariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, randint, uniform, random, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -173,8 +173,15 @@ def M_SL_generate_shapelet(
     #same for channels
     a2 = concatenate((zeros(1, dtype=int64),cumsum(n_channels)))   
 
+    #The state of the random generator is local to each thread: draw one seed per
+    #dilation, so that results do not depend on which thread process which one
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 2**31 - 1)
+
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_multivariate_variable_length.py b/convst/transformers/_multivariate_variable_length.py
index 025781c..499615b 100644
--- a/convst/transformers/_multivariate_variable_length.py
+++ b/convst/transformers/_multivariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, randint, uniform, random, seed
 from numpy import (
     unique, where, percentile, int64, bool_, float64, concatenate, any as _any,
     dot, log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std,
@@ -180,8 +180,15 @@ def M_VL_generate_shapelet(
     for i in prange(n_samples):
         mask_sampling[:,:,i,:,X_len[i]:] = 0
     
+    #The state of the random generator is local to each thread: draw one seed per
+    #dilation, so that results do not depend on which thread process which one
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 2**31 - 1)
+
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_same_length.py b/convst/transformers/_univariate_same_length.py
index 292d6d5..b20097d 100644
--- a/convst/transformers/_univariate_same_length.py
+++ b/convst/transformers/_univariate_same_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, randint, uniform, random, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -152,8 +152,15 @@ def U_SL_generate_shapelet(
         (2,unique_dil.shape[0],n_samples,n_timestamps), dtype=bool_
     )
 
+    #The state of the random generator is local to each thread: draw one seed per
+    #dilation, so that results do not depend on which thread process which one
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 2**31 - 1)
+
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
diff --git a/convst/transformers/_univariate_variable_length.py b/convst/transformers/_univariate_variable_length.py
index 13e5afd..8c3b10a 100644
--- a/convst/transformers/_univariate_variable_length.py
+++ b/convst/transformers/_univariate_variable_length.py
@@ -2,7 +2,7 @@
 """
 @author: Antoine Guillaume
 """
-from numpy.random import choice, uniform, random, seed
+from numpy.random import choice, randint, uniform, random, seed
 from numpy import (
     unique, where, percentile, all as _all, int64, bool_, any as _any,
     log2, floor_divide, zeros, floor, power, ones, cumsum, mean, std
@@ -167,8 +167,15 @@ def U_VL_generate_shapelet(
     for i in range(n_samples):
         mask_sampling[:,:,i,X_len[i]:] = False
     
+    #The state of the random generator is local to each thread: draw one seed per
+    #dilation, so that results do not depend on which thread process which one
+    dil_seeds = zeros(unique_dil.shape[0], dtype=int64)
+    for i in range(unique_dil.shape[0]):
+        dil_seeds[i] = randint(0, 2**31 - 1)
+
     #For each dilation, we can do in parallel
     for i_d in prange(unique_dil.shape[0]):
+        seed(dil_seeds[i_d])
         #For each shapelet id with this dilation
         id_shps = where(dilations==unique_dil[i_d])[0]
         min_l = min(lengths[id_shps])
-- 
2.43.0


From 76177f73b4e2926fdccce15513ecafb77fb87c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 02/34] fix: make training sample subsampling seeded and valid
 for variable length

The subsample was drawn from the global numpy generator, so that random_state
did not make the fit repeatable, and the true lengths of the kept series were
not selected along with the series.
---
 convst/transformers/rdst.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index fdeac01..6b0785c 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -208,17 +208,21 @@ class R_DST(BaseEstimator, TransformerMixin):
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
             self.min_len = X.shape[2]
+            X_len = None
         
+        rng = check_random_state(self.random_state)
         if self.n_samples is None:
             pass
         elif self.n_samples < 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
             X = X[id_X]
             y = y[id_X]
+            X_len = None if X_len is None else X_len[id_X]
         elif self.n_samples > 1.0:
-            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y)
+            id_X = resample(np.arange(X.shape[0]), replace=True, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
             X = X[id_X]
             y = y[id_X]
+            X_len = None if X_len is None else X_len[id_X]
         
         n_samples, n_features, _ = X.shape
         
@@ -228,7 +232,7 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         self.shapelet_lengths = self._set_lengths()
         
-        shapelet_lengths, seed = self._check_params(self.min_len)
+        shapelet_lengths, seed = self._check_params(self.min_len, rng)
         # Generate the shapelets
         if self.transform_type == STR_UNIVARIATE_VARIABLE:
             self.shapelets_ = self.fitter(
@@ -427,7 +431,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps):
+    def _check_params(self, n_timestamps, rng):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -438,6 +442,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
+        rng : RandomState
+            The random generator used for this fit.
 
         Raises
         ------
@@ -478,7 +484,6 @@ class R_DST(BaseEstimator, TransformerMixin):
                 shapelet_lengths[shapelet_lengths > n_timestamps] = n_timestamps//2
 
 
-        rng = check_random_state(self.random_state)
         seed = rng.randint(np.iinfo(np.uint32).max, dtype='u8')
 
         return shapelet_lengths, seed    
-- 
2.43.0


From ebddcb1f657fb12748463c714c9d2f2e3f6eed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 03/34] fix: keep random_state as given so that every fit of
 R_DST uses the seed

Turning an integer seed into a generator when the estimator is built made the
result of a fit depend on how many fits came before it, on this estimator or
on any clone sharing the generator.
---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 6b0785c..852a15b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -150,7 +150,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
         self.percentiles = self._validate_percentiles(percentiles)
-        self.random_state = check_random_state(random_state)
+        self.random_state = random_state
         if isinstance(n_jobs, bool):
             self.n_jobs=n_jobs
         else:
-- 
2.43.0


From 409837a900c08198db033e6c202c1daec1dac5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 04/34] fix: draw one seed per ensemble model and keep
 random_state as given

---
 convst/classifiers/rdst_ensemble.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index eac8523..a38dafe 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -178,7 +178,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths_bounds = shapelet_lengths_bounds
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.percentiles = percentiles
-        self.random_state = check_random_state(random_state)
+        self.random_state = random_state
         self.max_channels = max_channels
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
@@ -225,6 +225,12 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
     def fit(self, X, y):
         self._manage_n_jobs()
         set_num_threads(self.n_jobs_rdst)
+        # One seed per model drawn beforehand: the model workers must not share
+        # a random generator, as the order in which they use it would matter.
+        rng = check_random_state(self.random_state)
+        seeds = rng.randint(
+            np.iinfo(np.int32).max, size=len(self.input_transformers)
+        )
         models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
@@ -246,7 +252,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         percentiles=self.percentiles,
                         min_len=self.min_len,
                         max_channels=self.max_channels,
-                        random_state=self.random_state,
+                        random_state=seeds[i],
                     ),
                     _internalRidgeCV(
                         alphas=self.alphas_ridge,
-- 
2.43.0


From a598c8406ab7aa42b85effabea0dfa583fd8533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 05/34] fix: let R_DST be cloned and accept the
 univariate_variable transform type

---
 convst/transformers/rdst.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 852a15b..819d3fd 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -489,8 +489,11 @@ class R_DST(BaseEstimator, TransformerMixin):
         return shapelet_lengths, seed    
     
     def _validate_transform_type(self, transform_type):
+        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE_VARIABLE,STR_MULTIVARIATE_VARIABLE]
+        if transform_type in valid:
+            # Keep the very object given, sklearn clone checks it by identity
+            return transform_type
         transform_type = transform_type.lower()
-        valid = ['auto',STR_UNIVARIATE,STR_MUTLIVARIATE,STR_UNIVARIATE,STR_MULTIVARIATE_VARIABLE]
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From 6d4938664366af4a607647597576e17f94ec362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:53 +0000
Subject: [PATCH 06/34] fix: do not overwrite R_DST parameters during fit and
 publish the fitted model at once

---
 convst/transformers/rdst.py | 116 +++++++++++++++++++++++-------------
 1 file changed, 73 insertions(+), 43 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 819d3fd..16cfe7a 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -159,10 +159,29 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.max_channels=max_channels
         self.min_len=min_len
     
-    def _set_lengths(self):
+    def get_params(self, deep=True):
+        params = super().get_params(deep=deep)
+        if self._is_auto():
+            # The type found by the last fit is not a parameter
+            params['transform_type'] = 'auto'
+        return params
+    
+    def set_params(self, **params):
+        if 'transform_type' in params:
+            self._auto_type = None
+        return super().set_params(**params)
+    
+    def _is_auto(self):
+        """
+        Wheter the type of transformer is selected at each fit, i.e. if it was
+        not given by the user (after a fit, transform_type is the type found).
+        """
+        return self.transform_type in ('auto', getattr(self, '_auto_type', None))
+    
+    def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
-                return np.floor(self.min_len*self.shapelet_lengths)
+                return np.floor(min_len*self.shapelet_lengths)
             else:
                 return self.shapelet_lengths
         else:
@@ -170,10 +189,10 @@ class R_DST(BaseEstimator, TransformerMixin):
             b1 = self.shapelet_lengths_bounds[1]
             
             if isinstance(b0, float):
-                b0 = int(b0*self.min_len)
+                b0 = int(b0*min_len)
             min_l = max(3,b0)
             if isinstance(b1, float):
-                b1 = int(b1*self.min_len)
+                b1 = int(b1*min_len)
             max_l = max(4,max(b0+1,b1+1))
             #4 to ensure range 3,4 -> 3
             lengths = np.asarray(list(range(min_l, max_l)))
@@ -199,15 +218,16 @@ class R_DST(BaseEstimator, TransformerMixin):
             Class of the input time series.
 
         """
-        self._set_fit_transform(X)
-        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+        transform_type, fitter, transformer = self._get_fit_transform(X)
+        min_len = self.min_len
+        if transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if self.min_len is None:
-                self.min_len = X_len.min()
+            if min_len is None:
+                min_len = X_len.min()
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            self.min_len = X.shape[2]
+            min_len = X.shape[2]
             X_len = None
         
         rng = check_random_state(self.random_state)
@@ -226,35 +246,36 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         n_samples, n_features, _ = X.shape
         
-        if self.max_channels is None:
-            self.max_channels = n_features
+        max_channels = self.max_channels
+        if max_channels is None:
+            max_channels = n_features
         
 
-        self.shapelet_lengths = self._set_lengths()
-        
-        shapelet_lengths, seed = self._check_params(self.min_len, rng)
+        shapelet_lengths, seed = self._check_params(
+            self._set_lengths(min_len), min_len, rng
+        )
         # Generate the shapelets
-        if self.transform_type == STR_UNIVARIATE_VARIABLE:
-            self.shapelets_ = self.fitter(
+        if transform_type == STR_UNIVARIATE_VARIABLE:
+            shapelets = fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.min_len, X_len, self.prime_dilations
+                self.phase_invariance, min_len, X_len, self.prime_dilations
             )
-        elif self.transform_type == STR_MULTIVARIATE_VARIABLE:
-            self.shapelets_ = self.fitter(
+        elif transform_type == STR_MULTIVARIATE_VARIABLE:
+            shapelets = fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha,
-                self.phase_invariance, self.max_channels, self.min_len, X_len,
+                self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
-        elif self.transform_type == STR_MUTLIVARIATE:
-            self.shapelets_ = self.fitter(
+        elif transform_type == STR_MUTLIVARIATE:
+            shapelets = fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
-                self.phase_invariance, self.max_channels, self.prime_dilations
+                self.phase_invariance, max_channels, self.prime_dilations
             )
-        elif self.transform_type == STR_UNIVARIATE:
-            self.shapelets_ = self.fitter(
+        elif transform_type == STR_UNIVARIATE:
+            shapelets = fitter(
                 X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
                 self.percentiles[0], self.percentiles[1], self.alpha, 
                 self.phase_invariance, self.prime_dilations
@@ -262,6 +283,13 @@ class R_DST(BaseEstimator, TransformerMixin):
         else:
             raise ValueError('Unknown value for transform type parameter')
         
+        # Publish the new model at once: an interrupted fit must not leave the
+        # shapelets of one fit with the transformer of another.
+        vars(self).update(
+            _auto_type=transform_type if self._is_auto() else None,
+            transform_type=transform_type, fitter=fitter,
+            transformer=transformer, shapelets_=shapelets
+        )
         return self
 
 
@@ -332,11 +360,10 @@ class R_DST(BaseEstimator, TransformerMixin):
                 return STR_UNIVARIATE
         
         
-    def _set_fit_transform(self, X):
+    def _get_fit_transform(self, X):
         """
         Based on the transformation type, either specified by the user or found
-        by the _auto_class method, initialize the fitter and transformer 
-        attributes.
+        by the _auto_class method, get the fitter and transformer functions.
 
         Parameters
         ----------
@@ -347,12 +374,12 @@ class R_DST(BaseEstimator, TransformerMixin):
             
         Returns
         -------
-        None.
+        str, function, function
+            The type of transformation to use, with its fitter and transformer.
 
         """
-        if self.transform_type == 'auto':
+        if self._is_auto():
             _type = self._auto_class(X)
-            self.transform_type = _type
         else:
             _type = self.transform_type
             
@@ -360,32 +387,33 @@ class R_DST(BaseEstimator, TransformerMixin):
             from convst.transformers._univariate_same_length import (
                 U_SL_apply_all_shapelets, U_SL_generate_shapelet
             )
-            self.fitter = U_SL_generate_shapelet
-            self.transformer = U_SL_apply_all_shapelets
+            fitter = U_SL_generate_shapelet
+            transformer = U_SL_apply_all_shapelets
             
         elif _type == STR_MUTLIVARIATE:
             from convst.transformers._multivariate_same_length import (
                 M_SL_apply_all_shapelets, M_SL_generate_shapelet
             )
-            self.fitter = M_SL_generate_shapelet
-            self.transformer = M_SL_apply_all_shapelets
+            fitter = M_SL_generate_shapelet
+            transformer = M_SL_apply_all_shapelets
             
         elif _type == STR_UNIVARIATE_VARIABLE:
             from convst.transformers._univariate_variable_length import (
                 U_VL_apply_all_shapelets, U_VL_generate_shapelet
             )
-            self.fitter = U_VL_generate_shapelet
-            self.transformer = U_VL_apply_all_shapelets
+            fitter = U_VL_generate_shapelet
+            transformer = U_VL_apply_all_shapelets
             
         elif _type == STR_MULTIVARIATE_VARIABLE:
             from convst.transformers._multivariate_variable_length import (
                 M_VL_apply_all_shapelets, M_VL_generate_shapelet
             )
-            self.fitter = M_VL_generate_shapelet
-            self.transformer = M_VL_apply_all_shapelets
+            fitter = M_VL_generate_shapelet
+            transformer = M_VL_apply_all_shapelets
         
         else:
             raise ValueError('Unknwon transform type parameter')
+        return _type, fitter, transformer
     
     def _format_uneven_timestamps(self, X):
         """
@@ -431,7 +459,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError("Samples got different number of features")
     
 
-    def _check_params(self, n_timestamps, rng):
+    def _check_params(self, shapelet_lengths, n_timestamps, rng):
         """
         Check the validity of the input parameters, notably that shapelet 
         length do not exceed time series lengths, and that we have at least 3
@@ -439,6 +467,8 @@ class R_DST(BaseEstimator, TransformerMixin):
 
         Parameters
         ----------
+        shapelet_lengths : array
+            The possible size of the shapelets, before validation.
         n_timestamps : int
             Number of timestamps of input time series, if the input is of 
             variable length, it must be the minimum number of timestamps.
@@ -466,11 +496,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise TypeError("'n_shapelets' must be an integer (got {})."
                             .format(self.n_shapelets))
 
-        if not isinstance(self.shapelet_lengths, (list, tuple, np.ndarray)):
+        if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
             raise TypeError("'shapelet_lengths' must be a list, a tuple or "
-                            "an array (got {}).".format(self.shapelet_lengths))
+                            "an array (got {}).".format(shapelet_lengths))
         
-        shapelet_lengths = check_array_1D(self.shapelet_lengths).astype(np.int64)
+        shapelet_lengths = check_array_1D(shapelet_lengths).astype(np.int64)
         if not np.all(1 < shapelet_lengths):
             raise ValueError("All the values in 'shapelet_lengths' must be "
                              "greater than 1, but got {} ({} < 1)."
-- 
2.43.0


From 35a4181bac3d9a7516829ece5193fbf978c76b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 07/34] fix: handle any class label in R_DST and R_DST_Ensemble

---
 convst/classifiers/rdst_ensemble.py | 8 +++++---
 convst/transformers/rdst.py         | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index a38dafe..89e9616 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -49,9 +49,10 @@ class _internalRidgeCV(RidgeClassifierCV):
             alpha_idx = np.where(self.alphas == self.alpha_)[0]
             cv_vals = self.cv_values_[:, :, alpha_idx]
             if cv_vals.shape[1] == 1:
-                return accuracy_score((cv_vals[:, 0] > 0).astype(int), y_train)
+                y_idx = (cv_vals[:, 0] > 0).astype(int)
             else:
-                return accuracy_score(cv_vals.argmax(axis=1), y_train)
+                y_idx = cv_vals.argmax(axis=1)
+            return accuracy_score(self.classes_[y_idx.ravel()], y_train)
         else:
             raise ValueError(
                 "LOOCV training accuracy is only available with store_cv_values to True"
@@ -265,6 +266,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
 
         self.models = models
+        self.classes_ = np.unique(y)
         self.model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
@@ -281,4 +283,4 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         )
         # n_samples, n_models
         preds_proba = np.asarray(preds_proba).sum(axis=0)
-        return preds_proba.argmax(axis=1)
+        return self.classes_[preds_proba.argmax(axis=1)]
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 16cfe7a..2a57d94 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -230,6 +230,9 @@ class R_DST(BaseEstimator, TransformerMixin):
             min_len = X.shape[2]
             X_len = None
         
+        # The labels are only compared, and can be of any type (e.g. strings)
+        y = np.unique(y, return_inverse=True)[1]
+        
         rng = check_random_state(self.random_state)
         if self.n_samples is None:
             pass
-- 
2.43.0


From 64741ed2669606b2d0854c1c824447a2bc2b136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:49 +0000
Subject: [PATCH 08/34] fix: keep the models of R_DST_Ensemble consistent when
 a fit fails

---
 convst/classifiers/rdst_ensemble.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 89e9616..f5c559e 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -13,7 +13,7 @@ from convst.utils.checks_utils import (
 from convst.transformers import R_DST
 from convst.transformers._input_transformers import Raw, Derivate, Periodigram
 from sklearn.utils.fixes import delayed
-from sklearn.base import BaseEstimator, ClassifierMixin
+from sklearn.base import BaseEstimator, ClassifierMixin, clone
 from sklearn.linear_model import RidgeClassifierCV
 from sklearn.utils.extmath import softmax
 from sklearn.metrics import accuracy_score, make_scorer
@@ -237,7 +237,8 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                 X,
                 y,
                 make_pipeline(
-                    self.input_transformers[i],
+                    # the models of a previous fit keep their own transformers
+                    clone(self.input_transformers[i], safe=False),
                     R_DST(
                         n_shapelets=self.n_shapelets_per_estimator,
                         alpha=self.shp_alpha,
@@ -265,12 +266,15 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
             for i in range(len(self.input_transformers))
         )
 
-        self.models = models
-        self.classes_ = np.unique(y)
-        self.model_weights = [
+        model_weights = [
             model["_internalridgecv"].get_loocv_train_acc(y) ** self.a_w
             for model in models
         ]
+        # Publish the new models with their weights at once: an interrupted fit
+        # must not leave the models of one fit with the weights of another.
+        vars(self).update(
+            models=models, classes_=np.unique(y), model_weights=model_weights
+        )
         return self
 
     def predict(self, X):
-- 
2.43.0


From 7a3e0fbf6bb7196fbb4ab0b8a567e22088adb23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 09/34] fix: apply n_jobs when computing, in every thread,
 instead of at construction

---
 convst/classifiers/rdst_ensemble.py | 25 ++++++++++++++++---------
 convst/classifiers/rdst_ridge.py    |  9 ++++++++-
 convst/transformers/rdst.py         | 12 +++++++++++-
 3 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index f5c559e..32f2d7f 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -59,11 +59,14 @@ class _internalRidgeCV(RidgeClassifierCV):
             )
 
 
-def _parallel_fit(X, y, model):
+def _parallel_fit(X, y, model, n_threads):
+    # The number of threads is a setting of the worker running this function
+    set_num_threads(n_threads)
     return model.fit(X, y)
 
 
-def _parallel_predict(X, model, w):
+def _parallel_predict(X, model, w, n_threads):
+    set_num_threads(n_threads)
     return model.predict_proba(X) * w
 
 
@@ -220,19 +223,19 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def _manage_n_jobs(self):
         total_jobs = check_n_jobs(self.n_jobs)
-        self.n_jobs = min(len(self.input_transformers), total_jobs)
-        self.n_jobs_rdst = max(1, total_jobs // self.n_jobs)
+        n_jobs = min(len(self.input_transformers), total_jobs)
+        n_jobs_rdst = max(1, total_jobs // n_jobs)
+        return n_jobs, n_jobs_rdst
 
     def fit(self, X, y):
-        self._manage_n_jobs()
-        set_num_threads(self.n_jobs_rdst)
+        n_jobs, n_jobs_rdst = self._manage_n_jobs()
         # One seed per model drawn beforehand: the model workers must not share
         # a random generator, as the order in which they use it would matter.
         rng = check_random_state(self.random_state)
         seeds = rng.randint(
             np.iinfo(np.int32).max, size=len(self.input_transformers)
         )
-        models = Parallel(n_jobs=self.n_jobs, prefer=self.prefer, require=self.require)(
+        models = Parallel(n_jobs=n_jobs, prefer=self.prefer, require=self.require)(
             delayed(_parallel_fit)(
                 X,
                 y,
@@ -262,6 +265,7 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
                         class_weight=self.class_weight,
                     ),
                 ),
+                n_jobs_rdst,
             )
             for i in range(len(self.input_transformers))
         )
@@ -279,10 +283,13 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
 
     def predict(self, X):
         check_is_fitted(self, ["model_weights"])
+        n_jobs, n_jobs_rdst = self._manage_n_jobs()
         preds_proba = Parallel(
-            n_jobs=self.n_jobs, prefer=self.prefer, require=self.require
+            n_jobs=n_jobs, prefer=self.prefer, require=self.require
         )(
-            delayed(_parallel_predict)(X, self.models[i], self.model_weights[i])
+            delayed(_parallel_predict)(
+                X, self.models[i], self.model_weights[i], n_jobs_rdst
+            )
             for i in range(len(self.model_weights))
         )
         # n_samples, n_models
diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index a94d7e4..cccb7cd 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -142,7 +142,6 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             self.n_jobs = n_jobs
         else:
             self.n_jobs = check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
         self.random_state = random_state
         self.min_len = min_len
 
@@ -153,6 +152,12 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
             "capability:multivariate": True,
         }
 
+    def _set_num_threads(self):
+        # The number of threads is a setting of the calling thread shared by all
+        # estimators, so each call sets it.
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+
     def _init_components(self):
         self.classifier = make_pipeline(
             c_StandardScaler(with_mean=True),
@@ -194,6 +199,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         y : array, shape=(n_samples)
             Class of the input time series.
         """
+        self._set_num_threads()
         self._init_components()
         self.transformer = self.transformer.fit(X, y)
         self.classifier = self.classifier.fit(self.transformer.transform(X), y)
@@ -216,6 +222,7 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
 
         """
         check_is_fitted(self, ["classifier"])
+        self._set_num_threads()
         return self.classifier.predict(self.transformer.transform(X))
 
     def score(self, X, y):
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 2a57d94..183d256 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -155,7 +155,6 @@ class R_DST(BaseEstimator, TransformerMixin):
             self.n_jobs=n_jobs
         else:
             self.n_jobs=check_n_jobs(n_jobs)
-            set_num_threads(self.n_jobs)
         self.max_channels=max_channels
         self.min_len=min_len
     
@@ -178,6 +177,15 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         return self.transform_type in ('auto', getattr(self, '_auto_type', None))
     
+    def _set_num_threads(self):
+        """
+        Set the number of threads used by the numba functions. It is a setting
+        of the calling thread shared by all estimators, so each call sets it.
+        If n_jobs is a boolean, it is left to the caller.
+        """
+        if not isinstance(self.n_jobs, bool):
+            set_num_threads(check_n_jobs(self.n_jobs))
+    
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
             if self.shapelet_lengths.dtype == float:
@@ -218,6 +226,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             Class of the input time series.
 
         """
+        self._set_num_threads()
         transform_type, fitter, transformer = self._get_fit_transform(X)
         min_len = self.min_len
         if transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
@@ -316,6 +325,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         """
         
         check_is_fitted(self, ['shapelets_'])
+        self._set_num_threads()
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
-- 
2.43.0


From 17f060cae14fb4aea760da9b11ff50c1ac66e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 10/34] fix: load and grid search whole datasets with unequal
 length series

---
 convst/utils/dataset_utils.py     | 25 ++++++++++++++++++++++++-
 convst/utils/experiments_utils.py |  4 ++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index ec11c0f..230b406 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -133,11 +133,34 @@ def load_UCR_UEA_dataset(name, normalize=False):
     X_train, X_test, y_train, y_test, _ = load_UCR_UEA_dataset_split(
         name, normalize=normalize
     )
-    return np.concatenate((X_train, X_test), axis=0), np.concatenate(
+    return concatenate_series(X_train, X_test), np.concatenate(
         (y_train, y_test), axis=0
     )
 
 
+def concatenate_series(X_train, X_test):
+    """
+    Concatenate the train and test series of a dataset, as an array if all series
+    have the same length, else as a list.
+
+    Parameters
+    ----------
+    X_train : array or list
+        Train time series
+    X_test : array or list
+        Test time series
+
+    Returns
+    -------
+    X : array or list
+        The train series followed by the test series.
+
+    """
+    if isinstance(X_train, list) or isinstance(X_test, list):
+        return list(X_train) + list(X_test)
+    return np.concatenate((X_train, X_test), axis=0)
+
+
 def return_all_dataset_names():
     return np.concatenate(
         (
diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3f89a64..3efd29b 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -15,7 +15,7 @@ from sklearn.utils import check_random_state
 
 from timeit import default_timer as timer
 
-from convst.utils.dataset_utils import load_UCR_UEA_dataset_split
+from convst.utils.dataset_utils import load_UCR_UEA_dataset_split, concatenate_series
 
 #Reuse of the sktime function, modified for numpy array inputs rather than dataframes
 # and to handle variable length series
@@ -180,7 +180,7 @@ class grid_search_UCR_UEA:
         X_train_0, X_test_0, y_train_0, y_test_0, _ = load_UCR_UEA_dataset_split(
             self.dataset_name
         )  
-        X = np.concatenate((X_train_0, X_test_0),axis=0)
+        X = concatenate_series(X_train_0, X_test_0)
         y = np.concatenate((y_train_0, y_test_0),axis=0)
         cv.fit(X, y)
         return pd.DataFrame(cv.cv_results_)
-- 
2.43.0


From 77c3ff84e8535beff19af23217410958e83ce9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 11/34] fix: grid search folds with several channels or
 repeated series

---
 convst/utils/experiments_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 3efd29b..5146840 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -147,18 +147,23 @@ class _sklearn_cv:
         X_train_0, X_test_0, y_train_0, y_test_0, _ = load_UCR_UEA_dataset_split(
             self.dataset_name
         )
+        # X is made of the train series followed by the test series. Resample their
+        # positions rather than look for their values, which may not be unique.
+        n_train = len(X_train_0)
+        idx_train_0 = np.arange(n_train).reshape(-1, 1, 1)
+        idx_test_0 = np.arange(n_train, n_train + len(X_test_0)).reshape(-1, 1, 1)
         for i in range(self.n_splits):
             if i == 0:
-                X_train = np.copy(X_train_0)
-                X_test = np.copy(X_test_0)
+                X_train = np.copy(idx_train_0)
+                X_test = np.copy(idx_test_0)
                 y_train = np.copy(y_train_0)
                 y_test = np.copy(y_test_0)
             else:
                 X_train, y_train, X_test, y_test = _resample(
-                    X_train_0, y_train_0, X_test_0, y_test_0, i
+                    idx_train_0, y_train_0, idx_test_0, y_test_0, i
                 )
-            idx_Train = [np.where((X == X_train[j]).all(axis=2))[0][0] for j in range(X_train.shape[0])]
-            idx_Test = [np.where((X == X_test[j]).all(axis=2))[0][0] for j in range(X_test.shape[0])]
+            idx_Train = [int(j) for j in X_train.ravel()]
+            idx_Test = [int(j) for j in X_test.ravel()]
             yield idx_Train, idx_Test
     
     def get_n_splits(self, X=None, y=None, groups=None):
-- 
2.43.0


From 6414cdb0bd6a1108edb1514ae2f601c25dc29117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:05 +0000
Subject: [PATCH 12/34] fix: give each cross-validation fold its own copy of
 unequal length series

---
 convst/utils/experiments_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/convst/utils/experiments_utils.py b/convst/utils/experiments_utils.py
index 5146840..ba1c3d1 100644
--- a/convst/utils/experiments_utils.py
+++ b/convst/utils/experiments_utils.py
@@ -120,13 +120,14 @@ class cross_validate_UCR_UEA:
                     X_test = np.copy(X_test_0)
                     
                 else:
-                    X_train = copy.copy(X_train_0)
-                    X_test = copy.copy(X_test_0)
+                    X_train = copy.deepcopy(X_train_0)
+                    X_test = copy.deepcopy(X_test_0)
                 y_train = np.copy(y_train_0)
                 y_test = np.copy(y_test_0)
             else:
                 X_train, y_train, X_test, y_test = _resample(
-                    X_train_0, y_train_0, X_test_0, y_test_0, i
+                    copy.deepcopy(X_train_0), y_train_0,
+                    copy.deepcopy(X_test_0), y_test_0, i
                 )
             t0 = timer()
             pipeline = pipeline.fit(X_train, y_train)
-- 
2.43.0


From 90aa6460253766392771defb021aaf547c05906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 13/34] fix: load a dataset of which only one split is made of
 series of equal length

---
 convst/utils/dataset_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/dataset_utils.py b/convst/utils/dataset_utils.py
index 230b406..1c22242 100644
--- a/convst/utils/dataset_utils.py
+++ b/convst/utils/dataset_utils.py
@@ -92,6 +92,9 @@ def load_UCR_UEA_dataset_split(name, normalize=False):
     # Load datasets
     X_train, y_train = load_classification(name, return_metadata=False, split="train")
     X_test, y_test = load_classification(name, return_metadata=False, split="test")
+    # Only one of the splits may be made of series of equal length
+    if isinstance(X_train, list) != isinstance(X_test, list):
+        X_train, X_test = list(X_train), list(X_test)
 
     # Convert class labels to make sure they are between 0,n_classes
     le = LabelEncoder().fit(y_train)
-- 
2.43.0


From e90d60705612e81a0cc79fa0578ee83d2bb5f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 14/34] fix: keep estimator parameters as given so that
 estimators with changed parameters fit and clone

---
 convst/classifiers/rdst_ensemble.py |  6 ++--
 convst/classifiers/rdst_ridge.py    |  7 ++---
 convst/transformers/rdst.py         | 43 +++++++++++++++--------------
 3 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/convst/classifiers/rdst_ensemble.py b/convst/classifiers/rdst_ensemble.py
index 32f2d7f..4565122 100644
--- a/convst/classifiers/rdst_ensemble.py
+++ b/convst/classifiers/rdst_ensemble.py
@@ -187,14 +187,16 @@ class R_DST_Ensemble(BaseEstimator, ClassifierMixin):
         self.min_len = min_len
         self.lengths_bounds_reduction = lengths_bounds_reduction
         self.n_shapelets_per_estimator = check_is_numeric(n_shapelets_per_estimator)
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         self.n_jobs = n_jobs
 
         self.prefer = prefer
         self.require = require
         self.shp_alpha = check_is_numeric(shp_alpha)
         self.a_w = check_is_numeric(a_w)
-        self.proba_norm = check_array_1D(proba_norm)
+        check_array_1D(proba_norm)
+        self.proba_norm = proba_norm
 
         self.alphas_ridge = alphas_ridge
         self.class_weight = class_weight
diff --git a/convst/classifiers/rdst_ridge.py b/convst/classifiers/rdst_ridge.py
index cccb7cd..67ce69e 100644
--- a/convst/classifiers/rdst_ridge.py
+++ b/convst/classifiers/rdst_ridge.py
@@ -138,10 +138,9 @@ class R_DST_Ridge(BaseEstimator, ClassifierMixin):
         self.shapelet_lengths = shapelet_lengths
         self.proba_norm = proba_norm
         self.percentiles = percentiles
-        if isinstance(n_jobs, bool):
-            self.n_jobs = n_jobs
-        else:
-            self.n_jobs = check_n_jobs(n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs = n_jobs
         self.random_state = random_state
         self.min_len = min_len
 
diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 183d256..258cd17 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -136,8 +136,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         self.alpha = check_is_numeric(alpha)
         self.normalize_output = check_is_boolean(normalize_output)
         self.n_samples = check_is_numeric(n_samples) if n_samples is not None else n_samples
-        self.n_shapelets = int(check_is_numeric(n_shapelets))
-        self.shapelet_lengths = check_array_1D(shapelet_lengths)
+        self.n_shapelets = check_is_numeric(n_shapelets)
+        check_array_1D(shapelet_lengths)
+        self.shapelet_lengths = shapelet_lengths
         if shapelet_lengths_bounds is None:
             self.shapelet_lengths_bounds = None
         elif len(shapelet_lengths_bounds)==2:
@@ -149,12 +150,12 @@ class R_DST(BaseEstimator, TransformerMixin):
             raise ValueError('lengths_bounds_reduction parameter should be in range [0,1[')
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
-        self.percentiles = self._validate_percentiles(percentiles)
+        self._validate_percentiles(percentiles)
+        self.percentiles = percentiles
         self.random_state = random_state
-        if isinstance(n_jobs, bool):
-            self.n_jobs=n_jobs
-        else:
-            self.n_jobs=check_n_jobs(n_jobs)
+        if not isinstance(n_jobs, bool):
+            check_n_jobs(n_jobs)
+        self.n_jobs = n_jobs
         self.max_channels=max_channels
         self.min_len=min_len
     
@@ -188,10 +189,11 @@ class R_DST(BaseEstimator, TransformerMixin):
     
     def _set_lengths(self, min_len):
         if self.shapelet_lengths_bounds is None:
-            if self.shapelet_lengths.dtype == float:
-                return np.floor(min_len*self.shapelet_lengths)
+            shapelet_lengths = check_array_1D(self.shapelet_lengths)
+            if shapelet_lengths.dtype == float:
+                return np.floor(min_len*shapelet_lengths)
             else:
-                return self.shapelet_lengths
+                return shapelet_lengths
         else:
             b0 = self.shapelet_lengths_bounds[0]
             b1 = self.shapelet_lengths_bounds[1]
@@ -266,30 +268,31 @@ class R_DST(BaseEstimator, TransformerMixin):
         shapelet_lengths, seed = self._check_params(
             self._set_lengths(min_len), min_len, rng
         )
+        percentiles = self._validate_percentiles(self.percentiles)
         # Generate the shapelets
         if transform_type == STR_UNIVARIATE_VARIABLE:
             shapelets = fitter(
-                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha,
+                X, y, int(self.n_shapelets), shapelet_lengths, seed, self.proba_norm,
+                percentiles[0], percentiles[1], self.alpha,
                 self.phase_invariance, min_len, X_len, self.prime_dilations
             )
         elif transform_type == STR_MULTIVARIATE_VARIABLE:
             shapelets = fitter(
-                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha,
+                X, y, int(self.n_shapelets), shapelet_lengths, seed, self.proba_norm,
+                percentiles[0], percentiles[1], self.alpha,
                 self.phase_invariance, max_channels, min_len, X_len,
                 self.prime_dilations
             )
         elif transform_type == STR_MUTLIVARIATE:
             shapelets = fitter(
-                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha, 
+                X, y, int(self.n_shapelets), shapelet_lengths, seed, self.proba_norm,
+                percentiles[0], percentiles[1], self.alpha, 
                 self.phase_invariance, max_channels, self.prime_dilations
             )
         elif transform_type == STR_UNIVARIATE:
             shapelets = fitter(
-                X, y, self.n_shapelets, shapelet_lengths, seed, self.proba_norm,
-                self.percentiles[0], self.percentiles[1], self.alpha, 
+                X, y, int(self.n_shapelets), shapelet_lengths, seed, self.proba_norm,
+                percentiles[0], percentiles[1], self.alpha, 
                 self.phase_invariance, self.prime_dilations
             )
         else:
@@ -505,8 +508,8 @@ class R_DST(BaseEstimator, TransformerMixin):
             The random seed to be passed to the shapelet generator.
 
         """
-        if not isinstance(self.n_shapelets, (int, np.integer)):
-            raise TypeError("'n_shapelets' must be an integer (got {})."
+        if not isinstance(self.n_shapelets, (int, np.integer, float, np.floating)):
+            raise TypeError("'n_shapelets' must be a number (got {})."
                             .format(self.n_shapelets))
 
         if not isinstance(shapelet_lengths, (list, tuple, np.ndarray)):
-- 
2.43.0


From e379d77ecf31dbcad362efbb4c19b099941ed8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 15/34] fix: optimal offset of FastHankelTransform ignored its
 order mu and bias

fhtoffset(dln, mu, initial, bias) was given dln as the order and the bias as
the initial offset, so the offset used was not the optimal one.
---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index d2ef4b4..536ffb8 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -165,7 +165,7 @@ class FastHankelTransform(BaseEstimator, TransformerMixin):
                     X[i],
                     self.dln,
                     self.mu,
-                    offset=fhtoffset(self.dln, self.dln, self.bias),
+                    offset=fhtoffset(self.dln, self.mu, bias=self.bias),
                     bias=self.bias,
                 )
             else:
-- 
2.43.0


From 9b28c6bedf72e2aa99b70531853d4c1958c47621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:27 +0000
Subject: [PATCH 16/34] fix: Periodigram with a randomly drawn window fails in
 every transform

scipy takes the numpy string drawn for an array of window values (it has a
size) and refuses it.
---
 convst/transformers/_input_transformers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 536ffb8..23fb59f 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -121,7 +121,7 @@ class Periodigram(BaseEstimator, TransformerMixin):
         return X_new
 
     def _random_init(self):
-        self.set_params(**{"window_type": np.random.choice(self._get_windows())})
+        self.set_params(**{"window_type": str(np.random.choice(self._get_windows()))})
 
     def _get_windows(self):
         return np.asarray(
-- 
2.43.0


From d2f87193f5b7465eb2c67e1f5c77998731689991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 17/34] fix: class view of a refitted classifier mixed the
 shapelets of two fits

RDST_Ridge_interpreter kept the transformer of the fit before, but read the
coefficients and features of the last one.
---
 convst/interpreters/rdst_interpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/convst/interpreters/rdst_interpreter.py b/convst/interpreters/rdst_interpreter.py
index 2205679..9262985 100644
--- a/convst/interpreters/rdst_interpreter.py
+++ b/convst/interpreters/rdst_interpreter.py
@@ -373,7 +373,12 @@ class RDST_Ridge_interpreter():
             raise TypeError(
                 'Object passed to RDST_Ridge interpreter should be an R_DST_Ridge instance'
             )
-        self.rdst_interp = RDST_interpreter(self.RDST_Ridge.transformer)
+        check_is_fitted(self.RDST_Ridge.transformer, ['shapelets_'])
+        
+    @property
+    def rdst_interp(self):
+        # Each fit of the classifier makes a new transformer
+        return RDST_interpreter(self.RDST_Ridge.transformer)
         
     def _get_shp_importance(self, class_id):
         coefs = self.RDST_Ridge.classifier['ridgeclassifiercv'].coef_
-- 
2.43.0


From d429a9745f9835e444fad0fa9c05ee8c1871cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:42 +0000
Subject: [PATCH 18/34] fix: a constant feature column was kept when its
 computed deviation was not exactly zero

---
 convst/transformers/_input_transformers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/_input_transformers.py b/convst/transformers/_input_transformers.py
index 23fb59f..a08e45a 100644
--- a/convst/transformers/_input_transformers.py
+++ b/convst/transformers/_input_transformers.py
@@ -24,7 +24,7 @@ from convst import __USE_NUMBA_CACHE__, __USE_NUMBA_PARALLEL__
 
 class c_StandardScaler(StandardScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
@@ -33,7 +33,7 @@ class c_StandardScaler(StandardScaler):
 
 class c_MinMaxScaler(MinMaxScaler):
     def fit(self, X, y=None):
-        self.usefull_atts = np.where(np.std(X, axis=0) != 0)[0]
+        self.usefull_atts = np.where(np.ptp(X, axis=0) != 0)[0]
         return super().fit(X[:, self.usefull_atts], y=y)
 
     def transform(self, X):
-- 
2.43.0


From bc53d441b50ccff27547671d031f8d79e6159cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 19/34] fix: the critical difference diagram paired results by
 the order of the rows, not by dataset

---
 convst/utils/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index ca5a03d..f28fd2f 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -246,6 +246,9 @@ def _wilcoxon_holm(alpha=0.05, df_perf=None):
     Applies the wilcoxon signed rank test between each pair of algorithm and then use Holm
     to reject the null's hypothesis
     """
+    # the tests are paired: the results of all classifiers must follow the same
+    # order of datasets, whatever the order of the rows
+    df_perf = df_perf.sort_values(['classifier_name', 'dataset_name'])
     # count the number of tested datasets per classifier
     df_counts = pd.DataFrame({'count': df_perf.groupby(
         ['classifier_name']).size()}).reset_index()
-- 
2.43.0


From c0d006d2b75eb3581815d8080e98d334c82c39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 20/34] fix: pairwise_plot failed for several competitors in
 one column

---
 convst/utils/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index f28fd2f..1d46742 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -84,6 +84,9 @@ def pairwise_plot(
     fig, ax = plt.subplots(
         ncols=ncols, nrows=nrows, figsize=figsize, sharey=True, dpi=dpi
     )
+    if nrows > 1:
+        # subplots returns a one dimensional array for a single column
+        ax = np.reshape(ax, (nrows, ncols))
     props = dict(boxstyle='round', facecolor='wheat', alpha=0.75)
     for i, comp in enumerate(competitors):
         if nrows > 1:
-- 
2.43.0


From 62c59dcca9ce7d96f51317b1692fab0ece6a5de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 21/34] fix: a difference equal to the margin could be counted
 twice or not at all in pairwise_plot

---
 convst/utils/plot_utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/convst/utils/plot_utils.py b/convst/utils/plot_utils.py
index 1d46742..4dace92 100644
--- a/convst/utils/plot_utils.py
+++ b/convst/utils/plot_utils.py
@@ -122,8 +122,10 @@ def pairwise_plot(
                 ax[i // ncols, i % ncols].set_ylabel(baseline)
             ax[i // ncols, i % ncols].set_xlabel(comp)
     
-            textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+            diff = y - x
+            textstr = 'W - D - L\n{} - {} - {}'.format(
+                sum(diff > margin), sum(np.abs(diff) <= margin),
+                sum(diff < -margin))
             ax[i // ncols, i % ncols].text(0.05, 0.95, textstr, transform=ax[i // ncols, i % ncols].transAxes, fontsize=14,
                                            verticalalignment='top', bbox=props)
         if nrows == 1:
@@ -161,8 +163,10 @@ def pairwise_plot(
                     ax.set_ylabel(baseline)
                 ax.set_xlabel(comp)
     
-                textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                diff = y - x
+                textstr = 'W - D - L\n{} - {} - {}'.format(
+                    sum(diff > margin), sum(np.abs(diff) <= margin),
+                    sum(diff < -margin))
                 ax.text(0.05, 0.95, textstr, transform=ax.transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
             else:
@@ -199,8 +203,10 @@ def pairwise_plot(
                     ax[i % ncols].set_ylabel(baseline)
                 ax[i % ncols].set_xlabel(comp)
         
-                textstr = 'W - D - L\n{} - {} - {}'.format(sum(x+margin < y), sum(
-                    (x <= y+margin) & (y-margin <= x)), sum(x-margin > y))
+                diff = y - x
+                textstr = 'W - D - L\n{} - {} - {}'.format(
+                    sum(diff > margin), sum(np.abs(diff) <= margin),
+                    sum(diff < -margin))
                 ax[i % ncols].text(0.05, 0.95, textstr, transform=ax[i % ncols].transAxes, fontsize=14,
                                                verticalalignment='top', bbox=props)
     return fig
-- 
2.43.0


From 2b5eaf656db549511ba15422a90b4abff89084cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 22/34] fix: fit with fewer labels than samples read the labels
 out of bounds

---
 convst/transformers/rdst.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 258cd17..2548187 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -243,6 +243,10 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         # The labels are only compared, and can be of any type (e.g. strings)
         y = np.unique(y, return_inverse=True)[1]
+        if y.shape[0] != X.shape[0]:
+            raise ValueError(
+                "Found {} labels for {} samples".format(y.shape[0], X.shape[0])
+            )
         
         rng = check_random_state(self.random_state)
         if self.n_samples is None:
-- 
2.43.0


From 566853499a8a5a05fc4e5edda49652607bb5054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 23/34] fix: transform read out of bounds, or ignored features,
 when given another number of features than fit

---
 convst/transformers/rdst.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 2548187..cc5ff0b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -307,7 +307,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         vars(self).update(
             _auto_type=transform_type if self._is_auto() else None,
             transform_type=transform_type, fitter=fitter,
-            transformer=transformer, shapelets_=shapelets
+            transformer=transformer, shapelets_=shapelets,
+            _n_features=n_features
         )
         return self
 
@@ -336,16 +337,31 @@ class R_DST(BaseEstimator, TransformerMixin):
         if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
+            self._check_n_features(X)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
+            self._check_n_features(X)
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
         return X_new
     
+    def _check_n_features(self, X):
+        """
+        The shapelets index the features of the training data: input with
+        another number of features must not reach the numba functions, which
+        do not check the bounds of the arrays.
+        """
+        if X.shape[1] != getattr(self, '_n_features', X.shape[1]):
+            raise ValueError(
+                "X has {} features, but {} were seen during fit".format(
+                    X.shape[1], self._n_features
+                )
+            )
+
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From b79cb746916c7313a6b89148f06c474591505377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 24/34] fix: set_params(transform_type=...) broke the transform
 of a model fitted on unequal lengths

---
 convst/transformers/rdst.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index cc5ff0b..96b869e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -308,7 +308,7 @@ class R_DST(BaseEstimator, TransformerMixin):
             _auto_type=transform_type if self._is_auto() else None,
             transform_type=transform_type, fitter=fitter,
             transformer=transformer, shapelets_=shapelets,
-            _n_features=n_features
+            _n_features=n_features, _fit_type=transform_type
         )
         return self
 
@@ -334,7 +334,9 @@ class R_DST(BaseEstimator, TransformerMixin):
         
         check_is_fitted(self, ['shapelets_'])
         self._set_num_threads()
-        if self.transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
+        # The type found by fit, set_params may have changed transform_type since
+        fit_type = getattr(self, '_fit_type', self.transform_type)
+        if fit_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
             self._check_n_features(X)
-- 
2.43.0


From 096a429fd44e8c5087fea518926ff70edc9817a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 25/34] fix: series in which a shapelet does not fit got
 features computed from no window

---
 convst/transformers/rdst.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 96b869e..f80ff11 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -340,12 +340,14 @@ class R_DST(BaseEstimator, TransformerMixin):
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X).astype(np.float64)
             self._check_n_features(X)
+            self._check_n_timestamps(X_len.min())
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance, X_len
             )
         else:
             X = check_array_3D(X).astype(np.float64)
             self._check_n_features(X)
+            self._check_n_timestamps(X.shape[2])
             X_new = self.transformer(
                 X, self.shapelets_, self.phase_invariance
             )
@@ -364,6 +366,18 @@ class R_DST(BaseEstimator, TransformerMixin):
                 )
             )
 
+    def _check_n_timestamps(self, n_timestamps):
+        """
+        Without phase invariance, a shapelet has no distance to a series in 
+        which it does not fit.
+        """
+        spans = (self.shapelets_[1] - 1) * self.shapelets_[2]
+        if not self.phase_invariance and np.any(spans >= n_timestamps):
+            raise ValueError(
+                "The shapelets need series of at least {} timestamps, but got {}"
+                .format(spans.max() + 1, n_timestamps)
+            )
+
     def _auto_class(self, X):
         """
         Using the input time series data, find the type of transformation to 
-- 
2.43.0


From 8c375ecc7789ef18b800816de9510d17e303389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 26/34] fix: a min_len greater than the shortest series read
 out of bounds

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f80ff11..88b7581 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -234,7 +234,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         if transform_type in [STR_MULTIVARIATE_VARIABLE, STR_UNIVARIATE_VARIABLE]:
             X, X_len = self._format_uneven_timestamps(X)
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-            if min_len is None:
+            if min_len is None or min_len > X_len.min():
                 min_len = X_len.min()
         else:
             X = check_array_3D(X, is_univariate=False).astype(np.float64)
-- 
2.43.0


From 9e944d14f5bab811f43f050dce31462afdd3a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 27/34] fix: fit failed for some seeds when max_channels
 exceeds the number of features

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 88b7581..b48f85e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -265,7 +265,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         n_samples, n_features, _ = X.shape
         
         max_channels = self.max_channels
-        if max_channels is None:
+        if max_channels is None or max_channels > n_features:
             max_channels = n_features
         
 
-- 
2.43.0


From ee927d32df72d29e81c42609af244f88f9c9f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 28/34] fix: percentiles of another size than two were accepted
 or failed with an IndexError

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index b48f85e..f5e783e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -583,7 +583,7 @@ class R_DST(BaseEstimator, TransformerMixin):
     def _validate_percentiles(self, percentiles):
         percentiles = check_array_1D(percentiles)
         if percentiles.dtype == int or percentiles.dtype == float :
-            if percentiles[0] <= percentiles[1]:
+            if percentiles.shape[0] == 2 and percentiles[0] <= percentiles[1]:
                 return percentiles
         raise ValueError('Wrong percetniles parameter value, got {}, expected a numerical array of size 2'.format(percentiles))
     
\ No newline at end of file
-- 
2.43.0


From 34bbda0f3178784cc34711b883eee766fd3e8016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 29/34] fix: a negative lengths_bounds_reduction was accepted
 although documented as in [0,1[

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index f5e783e..bb3e920 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -146,7 +146,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         else:
             raise ValueError('Shapelets lengths bounds should be a 1D array with 2 values')
         self.lengths_bounds_reduction=check_is_numeric(lengths_bounds_reduction)
-        if self.lengths_bounds_reduction>=1:
+        if not 0 <= self.lengths_bounds_reduction < 1:
             raise ValueError('lengths_bounds_reduction parameter should be in range [0,1[')
         self.prime_dilations = check_is_boolean(prime_dilations)
         self.proba_norm = check_is_numeric(proba_norm)
-- 
2.43.0


From cf1718f1deb2fcbe1a7db63bc24ba1566d19e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 30/34] fix: a transform_type which is not a string was refused
 with an AttributeError

---
 convst/transformers/rdst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index bb3e920..e1d2e2b 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -575,7 +575,7 @@ class R_DST(BaseEstimator, TransformerMixin):
         if transform_type in valid:
             # Keep the very object given, sklearn clone checks it by identity
             return transform_type
-        transform_type = transform_type.lower()
+        transform_type = str(transform_type).lower()
         if transform_type not in valid:
             raise ValueError('Wrong transform_type parameter value, got {}, valid ones are {}'.format(transform_type, valid))
         return transform_type
-- 
2.43.0


From edfa7a069f6f83f0139b976b490783c71106ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 31/34] fix: n_jobs=0 was accepted, then failed with a division
 by zero in the ensemble

---
 convst/utils/checks_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/convst/utils/checks_utils.py b/convst/utils/checks_utils.py
index 1777bab..907fc94 100644
--- a/convst/utils/checks_utils.py
+++ b/convst/utils/checks_utils.py
@@ -42,6 +42,8 @@ def check_n_jobs(n_jobs):
         return 1
     elif not is_int(n_jobs):
         raise ValueError(f"`n_jobs` must be None or an integer, but found: {n_jobs}")
+    elif n_jobs == 0:
+        raise ValueError("`n_jobs` must not be 0")
     elif n_jobs < 0:
         return cpu_count() + n_jobs + 1
     else:
-- 
2.43.0


From 431a67a4cea577201f2d8782d57e14c2da346263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 32/34] fix: an n_samples which selects no series failed with
 an IndexError

---
 convst/transformers/rdst.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index e1d2e2b..ce72409 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -251,6 +251,12 @@ class R_DST(BaseEstimator, TransformerMixin):
         rng = check_random_state(self.random_state)
         if self.n_samples is None:
             pass
+        elif int(X.shape[0]*self.n_samples) < 1:
+            raise ValueError(
+                "n_samples={} selects none of the {} samples".format(
+                    self.n_samples, X.shape[0]
+                )
+            )
         elif self.n_samples < 1.0:
             id_X = resample(np.arange(X.shape[0]), replace=False, n_samples=int(X.shape[0]*self.n_samples), stratify=y, random_state=rng)
             X = X[id_X]
-- 
2.43.0


From d20b1220965bcbba9d80f2730ab5292148114d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 33/34] fix: series of less than three timestamps were accepted
 among series of unequal lengths

---
 convst/transformers/rdst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index ce72409..37f001c 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -508,6 +508,11 @@ class R_DST(BaseEstimator, TransformerMixin):
             n_ft[i] = X[i].shape[0]
             lengths[i] = X[i].shape[1]
         
+        if lengths.min() <= 2:
+            raise ValueError(
+                "Input should have more than 2 timestamp"
+                ", found only: {}".format(lengths.min())
+            )
         if np.all(n_ft == n_ft[0]):      
             X_new = np.zeros((len(X), n_ft[0], lengths.max()))
             for i in range(len(X)):
-- 
2.43.0


From f7a08ab3df8c5a1ad348135a006e29ab0ba0ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 34/34] fix: set_params(transform_type=None) was taken for auto
 by the next fit

---
 convst/transformers/rdst.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/convst/transformers/rdst.py b/convst/transformers/rdst.py
index 37f001c..4c6704e 100644
--- a/convst/transformers/rdst.py
+++ b/convst/transformers/rdst.py
@@ -176,7 +176,8 @@ class R_DST(BaseEstimator, TransformerMixin):
         Wheter the type of transformer is selected at each fit, i.e. if it was
         not given by the user (after a fit, transform_type is the type found).
         """
-        return self.transform_type in ('auto', getattr(self, '_auto_type', None))
+        found = getattr(self, '_auto_type', None)
+        return self.transform_type in ('auto', found or 'auto')
     
     def _set_num_threads(self):
         """
-- 
2.43.0

