From f82167c4f7048db78111678d44b7cc834c482dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 01/78] fix: read job directory step numbers of ten and more in
 full

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From 132e093b34c3837f29dacbba7941b66f16bc97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 02/78] fix: data vectors of different length are never equal

---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From f34f3900801354c8fca1913efcdcbf9448f8cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 03/78] fix: recompute a Fisher inverse when fixing, slicing or
 priors change the matrix

---
 seyfert/fisher/fisher_matrix.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..5b05570 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -206,6 +206,7 @@ class FisherMatrix:
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
+        self._refreshInverse()
 
     def fixParameters(self, params: "Iterable[str]") -> "None":
         params = set(params)
@@ -215,10 +216,16 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._refreshInverse()
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
 
+    def _refreshInverse(self):
+        # an inverse computed before the matrix changed must not be used afterwards
+        if self.inverse is not None:
+            self.evaluateInverse()
+
     def getFigureOfMerit(self, par_1: "str" = 'w0', par_2: "str" = 'wa') -> "float":
         pars_subset = {par_1, par_2}
         sub_inv_matrix = self.inverse.loc[pars_subset, pars_subset]
@@ -309,6 +316,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._refreshInverse()
 
     def getFilename(self) -> "str":
         sub_dict = {
-- 
2.43.0


From 92aaeb483f267fbc2001d661d3969aa40e89ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 04/78] fix: label correlation sigmas with the index of the
 inverse they come from

---
 seyfert/fisher/fisher_matrix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 5b05570..328cbf7 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -234,12 +234,12 @@ class FisherMatrix:
 
     def evaluateCorrelationMatrix(self) -> "None":
         sigmas = np.sqrt(np.diag(self.inverse))
-        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
-        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.matrix.shape[1], axis=1),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.inverse.shape[0], axis=0),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
+        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.inverse.shape[1], axis=1),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
         self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
         self.correlation.sort_index(axis=0, inplace=True)
-- 
2.43.0


From a82b5a59da395125be0cf763230fd251b492cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 05/78] fix: decode the strings of Fisher matrix HDF5 files

---
 seyfert/fisher/fisher_matrix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 328cbf7..eb0a129 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -360,16 +360,21 @@ class FisherMatrix:
                               dtype=str_dtype)
         hf.close()
 
+    @staticmethod
+    def _decodeString(value: "Union[bytes, str]") -> "str":
+        # h5py >= 3 returns stored strings as bytes
+        return value.decode("utf-8") if isinstance(value, bytes) else str(value)
+
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            self.name = self._decodeString(hf["name"][()])
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = set(map(self._decodeString, hf["nuisance_pars"][()]))
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = set(map(self._decodeString, hf["cosmological_pars"][()]))
+            indices = [self._decodeString(idx) for idx in hf["indices"][()]]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From fc0e1f33b90abea97ebc853b392c8a0c4dd5647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 06/78] fix: SteM refinement of spectra with negative values

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..d51d4ec 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From 573737546c588e55af14d5823356eb4665b14cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 07/78] fix: vectorized SteM fits the innermost three points
 before giving up

---
 seyfert/derivatives/differentiator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d51d4ec..1f519cc 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -133,12 +133,12 @@ class SteMClDifferentiator(ClDifferentiator):
                 err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
-                x = x[1:-1]
-                y = y[1:-1]
-
                 less_than_three_points = y.shape[0] <= 3
                 stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
 
+                x = x[1:-1]
+                y = y[1:-1]
+
         dc_lij = slopes.reshape((n_ells, ni, nj))
 
         return dc_lij
-- 
2.43.0


From 0db8b365616d69d9ebefadacb8bee1bf3bce36f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:46 +0000
Subject: [PATCH 08/78] fix: cl variations follow the configured SteM steps

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..5973316 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -83,7 +83,7 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
                            pmm_cfg=None, compute_pmm=False,
                            fiducial_cosmology=None) -> "Dict[int, AngularCoefficientsCollector]":
     cl_coll_variations = {0: fid_cls}
-    for step in np.r_[-7:0, 1:8]:
+    for step in phys_pars.stem_steps:
         logger.info(f"dvar {dvar}, step {step}")
         phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
         if not compute_pmm:
-- 
2.43.0


From a3952be082f27de20f891f9546982634d6dacfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 09/78] fix: spectra without a kernel can be saved

---
 seyfert/cosmology/c_ells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..a71b8e1 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -482,7 +482,7 @@ class H5Cl(AbstractH5FileIO):
         if obj.kernel is not None:
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
-        if obj.weight1 is not None:
+        if obj.kernel is not None and obj.weight1 is not None:
             w1_root_path = f'weight_functions/{self.probe1}'
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
-- 
2.43.0


From 6a25e7e4723a5fbf2be0e5a8430ab8595a2fdf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 10/78] fix: analytic bias derivative for bin numbers of two
 digits

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 1f519cc..f60696d 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import re
 import numpy as np
 from scipy import integrate
 from typing import List
@@ -183,7 +184,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r'\d+$', self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From 011bdaa18e9e998337113e4cd112da5f7c5b4383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 11/78] fix: constant bias values in the order of the bins

---
 seyfert/cosmology/bias.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..9b1c5e1 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -192,7 +192,9 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        # HDF5 files list the parameters alphabetically: bin 10 would come before bin 2
+        names = sorted(self.nuisance_parameters, key=lambda name: int(re.search(r'\d+', name).group()))
+        b_i = np.array([self.nuisance_parameters[name] for name in names])
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
-- 
2.43.0


From a5bddad3bb30f7acfaeede6028a5e5601ea20849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 12/78] fix: quad integration of spectra to a relative accuracy

---
 seyfert/cosmology/c_ells.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index a71b8e1..d92d9c7 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -215,7 +215,9 @@ class AngularCoefficient:
             result = np.zeros(integrand.shape[0])
             for ell_idx in range(len(result)):
                 spl = interpolate.interp1d(x=self.z_array, y=integrand[ell_idx], kind='linear')
-                result[ell_idx] = integrate.quad(spl, a=self.z_array[0], b=self.z_array[-1])[0]
+                # spectra are far below the default absolute tolerance
+                result[ell_idx] = integrate.quad(spl, a=self.z_array[0], b=self.z_array[-1], epsabs=0,
+                                                 points=self.z_array[1:-1], limit=len(self.z_array) + 50)[0]
         else:
             raise ClError(f"unrecognized integration method: {self.integ_method}")
 
-- 
2.43.0


From 44603eb076330ca87c17a1e1ef69bd159d8bfd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 13/78] fix: spectra stored under different groups of one file
 keep their own weights

---
 seyfert/cosmology/c_ells.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index d92d9c7..59538ff 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -447,6 +447,15 @@ class H5Cl(AbstractH5FileIO):
     def absolute_main_path(self) -> "str":
         return join(self.root_path, self.main_path_rel_to_root)
 
+    def getWeightPath(self, probe: "str") -> "str":
+        """Weights are stored beside the spectra, or beside the "cls" group of the collection they belong to."""
+        base_path = self.root_path[:-len('/cls')] if self.root_path.endswith('/cls') else self.root_path
+        return join(base_path or '/', 'weight_functions', probe)
+
+    def findWeightPath(self, probe: "str") -> "str":
+        w_path = self.getWeightPath(probe)
+        return w_path if w_path in self._h5file else self.findGroup(f"weight_functions/{probe}")[0]
+
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
         self.build_data['probe2'] = self.probe2
@@ -466,8 +475,8 @@ class H5Cl(AbstractH5FileIO):
         if ker_path in self.root:
             h5k = kfs.H5Kernel()
             obj.kernel = h5k.load(self.file_path, root=ker_path)
-            w1_root_path = self.findGroup(f"weight_functions/{self.probe1}")[0]
-            w2_root_path = self.findGroup(f"weight_functions/{self.probe2}")[0]
+            w1_root_path = self.findWeightPath(self.probe1)
+            w2_root_path = self.findWeightPath(self.probe2)
             h5w1 = wfs.H5WeightFunction()
             h5w2 = wfs.H5WeightFunction()
             obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
@@ -485,11 +494,11 @@ class H5Cl(AbstractH5FileIO):
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
         if obj.kernel is not None and obj.weight1 is not None:
-            w1_root_path = f'weight_functions/{self.probe1}'
+            w1_root_path = self.getWeightPath(self.probe1)
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight1, self.file_path, root=w1_root_path)
-            w2_root_path = f'weight_functions/{self.probe2}'
+            w2_root_path = self.getWeightPath(self.probe2)
             if w2_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight2, self.file_path, root=w2_root_path)
-- 
2.43.0


From 734141eccd87f606963e4b408012016ac15dad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 14/78] fix: model name of a cosmology loaded from file

---
 seyfert/cosmology/cosmology.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 59304a4..fd46915 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -409,8 +409,7 @@ class H5Cosmology(AbstractH5FileIO):
             self.readBuildingData()
         if obj.is_flat is None:
             obj.is_flat = self.build_data['flat']
-        if obj.model_name is None:
-            obj.model_name = self.build_data['model_name']
+        obj.model_name = self.build_data['model_name']
         if obj.params is None:
             obj.params = self.build_data['params']
 
-- 
2.43.0


From 96890b7d9f14afb92b2417aa79ae6d47ec9ba374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 15/78] fix: WeightFunction.loadFromHDF5 opens its file for
 reading

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..4e0bf8d 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file=file, mode='r', root=root)
         h5w.writeToObject(self)
         h5w.closeFile()
 
-- 
2.43.0


From dfcb447068e69b97ad42ce014ec18f87a3920f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 16/78] fix: a refused save does not relabel what the file
 already holds

---
 seyfert/cosmology/kernel_functions.py | 2 +-
 seyfert/cosmology/redshift_density.py | 2 +-
 seyfert/cosmology/weight_functions.py | 2 +-
 seyfert/fisher/delta_cl.py            | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index 7c6db0a..ab0e6f4 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -102,6 +102,6 @@ class H5Kernel(AbstractH5FileIO):
 
     def writeObjectToFile(self, obj: "KernelFunction") -> "None":
         super(H5Kernel, self).writeObjectToFile(obj)
-        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
         self.createDataset(name='z_grid', data=obj.z_grid)
         self.createDataset(name='k_ijz', data=obj.k_ijz)
+        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9192298..9f42cec 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -217,8 +217,8 @@ class H5Density(AbstractH5FileIO):
             }
 
     def writeObjectToFile(self, obj: "RedshiftDensity") -> "None":
-        self.attrs['probe'] = obj.probe
         self.createDataset(name='has_niz_from_input', data=obj.has_niz_from_input)
+        self.attrs['probe'] = obj.probe
         self.createDataset(name='input_z_domain', data=obj.input_z_domain)
         self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.createDataset(name='catalog_f_sky', data=obj.catalog_f_sky)
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 4e0bf8d..8407ac4 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -318,11 +318,11 @@ class H5WeightFunction(AbstractH5FileIO):
                 logger.warning(f'bias absent from h5 file')
 
     def writeObjectToFile(self, obj: "WeightFunction") -> "None":
-        self.attrs['probe'] = obj.probe
         if obj.z_grid is not None:
             self.createDataset(name='z_grid', data=obj.z_grid)
         if obj.w_bin_z is not None:
             self.createDataset(name='w_bin_z', data=obj.w_bin_z)
+        self.attrs['probe'] = obj.probe
         if obj.density is not None:
             obj.density.saveToHDF5(self.file_path, root=join(self.root_path, 'density'))
         else:
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..be0fe84 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -273,15 +273,15 @@ class H5DeltaCl(AbstractH5FileIO):
                 continue
 
     def writeObjectToFile(self, obj: "DeltaCl") -> "None":
+        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
+        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
+
         self.attrs['name'] = obj.name
         if obj.probe_1 is not None:
             self.attrs['probe_1'] = obj.probe_1
         if obj.probe_2 is not None:
             self.attrs['probe_2'] = obj.probe_2
 
-        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
-        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
-
         if obj.inv_delta_c_lij is not None:
             self.createDataset(name="inv_delta_c_lij", data=obj.inv_delta_c_lij)
         if obj.l_bin_widths is not None:
-- 
2.43.0


From fac5fdaa034db22b8168ce7e4fd94fbf25c24e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 17/78] fix: run_seyfert uses the power spectra directory it is
 given

---
 seyfert/main/seyfert_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..0e1742d 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -53,6 +53,8 @@ def prepare_workspace(args_dict):
         pmm_dir.mkdir(exist_ok=True)
 
     ext_dirs = {}
+    if args_dict.get('powerspectrum_dir') is not None:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
-- 
2.43.0


From 1a1383aa519be3a3afae26980ef39e85499303d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 18/78] fix: a run stopped during the derivatives can be
 resumed

---
 seyfert/main/seyfert_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 0e1742d..06a0c9f 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -98,8 +98,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
 def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities, fid_cls):
     cl_ders_file = ws.der_dir / "cl_ders.pickle"
-    if not ws.der_dir.is_dir():
-        ws.der_dir.mkdir()
+    if not cl_ders_file.is_file() and not ws.der_dir.is_symlink():
+        ws.der_dir.mkdir(exist_ok=True)
         cl_ders_file = ws.der_dir / "cl_ders.pickle"
 
         data = {
-- 
2.43.0


From c74a2a2b7d60018ad000a68b493ac7bf522b8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 19/78] fix: a run stopped during the final results can be
 resumed

---
 seyfert/main/seyfert_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 06a0c9f..f0d9f31 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -152,7 +152,7 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
 
     f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
+    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
 
     return auto_fishers + fishers
 
@@ -180,7 +180,7 @@ def do_forecast(args_dict, logfile):
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
-    create_final_results(rundir=ws.run_dir, outdir_name="final_results")
+    create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
     shutil.copy(logfile, ws.run_dir / Path(logfile).name)
 
-- 
2.43.0


From e247a1f9989d2a974317a3f65aac0abd50ec0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 20/78] fix: products of an interrupted run are never taken for
 complete ones

---
 seyfert/main/fisher_core.py       | 12 +++++++++---
 seyfert/main/seyfert_core.py      | 11 +++++++----
 seyfert/utils/filesystem_utils.py | 13 +++++++++++++
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/seyfert/main/fisher_core.py b/seyfert/main/fisher_core.py
index d227bbb..5892b76 100644
--- a/seyfert/main/fisher_core.py
+++ b/seyfert/main/fisher_core.py
@@ -1,4 +1,5 @@
 import logging
+import shutil
 from pathlib import Path
 import pandas as pd
 from typing import Dict, List
@@ -6,6 +7,7 @@ from typing import Dict, List
 from seyfert.fisher.fisher_evaluator import FisherEvaluator
 from seyfert.fisher.datavector import ClDataVector
 from seyfert.fisher.fisher_matrix import FisherMatrix
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.cosmology.parameter import PhysicalParametersCollection
 from seyfert.fisher.delta_cl import DeltaClCollection
@@ -45,8 +47,11 @@ def compute_fisher_matrix(data_vector_like: "ClDataVector", ws: "WorkSpace",
         f_mat_df, f_ell_df = fish_evaluator.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls,
                                                                 dcoll_dvar_dict=dcoll_dvar_dict, return_f_ell=True)
         probe = list(data_vector.getInvolvedAutoCorrelationProbes())[0]
-        with pd.HDFStore(ws.auto_f_ells_file, mode="a") as hdf:
-            f_ell_df.to_hdf(hdf, key=probe)
+        with fsu.complete_file(ws.auto_f_ells_file) as file:
+            if ws.auto_f_ells_file.exists():
+                shutil.copy(ws.auto_f_ells_file, file)
+            with pd.HDFStore(file, mode="a") as hdf:
+                f_ell_df.to_hdf(hdf, key=probe)
     else:
         auto_f_ells = {}
         with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
@@ -89,7 +94,8 @@ def compute_and_save_fishers(brief_str_data_vectors, outdir, ws: "WorkSpace",
             fisher_matrix = compute_fisher_matrix(data_vector, ws, phys_pars, delta_cls, dcoll_dvar_dict)
             fishers.append(fisher_matrix)
             logger.info(f"Writing output file {output_file.name}")
-            fisher_matrix.writeToFile(outfile=output_file)
+            with fsu.complete_file(output_file) as file:
+                fisher_matrix.writeToFile(outfile=file)
 
         logger.info("# Done")
         logger.info(f"{'#' * 60}")
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index f0d9f31..ff71cac 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -74,7 +74,8 @@ def compute_densities(ws, fcfg, fid_cosmo):
             densities[probe].evaluate(z_grid=fid_cosmo.z_grid)
             densities[probe].evaluateSurfaceDensity()
 
-        redshift_density.save_densities_to_file(densities=densities, file=ws.niz_file)
+        with fsu.complete_file(ws.niz_file) as file:
+            redshift_density.save_densities_to_file(densities=densities, file=file)
     else:
         densities = redshift_density.load_densities_from_file(file=ws.niz_file)
 
@@ -89,7 +90,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-        fid_cls.saveToHDF5(fid_cl_file)
+        with fsu.complete_file(fid_cl_file) as file:
+            fid_cls.saveToHDF5(file)
     else:
         fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
 
@@ -127,7 +129,7 @@ def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densiti
         logger.info("")
         logger.info(f"Cl derivatives total elapsed time: {formatters.string_time_format(tf - ti)}")
 
-        with open(cl_ders_file, mode="wb") as f:
+        with fsu.complete_file(cl_ders_file) as file, open(file, mode="wb") as f:
             pickle.dump(ders_dict, f)
     else:
         with open(cl_ders_file, mode="rb") as f:
@@ -176,7 +178,8 @@ def do_forecast(args_dict, logfile):
         delta_cls = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
     else:
         delta_cls = cl_core.compute_delta_cls(ws)
-        delta_cls.saveToHDF5(ws.delta_cls_file)
+        with fsu.complete_file(ws.delta_cls_file) as file:
+            delta_cls.saveToHDF5(file)
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index e00f5f6..594bcfe 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -2,6 +2,7 @@ from typing import Tuple, Dict, Union
 import re
 import json
 import os
+from contextlib import contextmanager
 from pathlib import Path
 import logging
 
@@ -10,6 +11,18 @@ from seyfert import SEYFERT_PATH
 logger = logging.getLogger(__name__)
 
 
+@contextmanager
+def complete_file(file: "Union[str, Path]"):
+    """Path to write in place of file: what is written there becomes file in one step when the block ends, so that a
+    file is either absent (or as it was) or complete, even if the program is stopped while writing."""
+    file = Path(file)
+    partial_file = file.with_name(f".partial_{file.name}")
+    if partial_file.exists():
+        partial_file.unlink()
+    yield partial_file
+    os.replace(partial_file, file)
+
+
 def repo_path():
     return Path(SEYFERT_PATH).parent
 
-- 
2.43.0


From 8a42989df42123365fbfe96c3f7328c57969c06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 21/78] fix: links to external directories do not depend on the
 working directory or on linked run directories

---
 seyfert/utils/workspace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..8041c12 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -222,7 +222,8 @@ class WorkSpace:
             logger.warning(f"cwd is {os.getcwd()}")
             raise FileNotFoundError(src)
         dst_path = Path(dst)
-        symlink_src = Path(os.path.relpath(src, self.run_dir)) if src_relative_to_rundir else Path(src)
+        symlink_src = Path(os.path.relpath(src.resolve(), dst_path.parent.resolve())) if src_relative_to_rundir \
+            else src.absolute()
         dst_path.symlink_to(symlink_src)
 
     def createInputFilesDir(self, src_input_files: "Dict", phys_pars: "PhysicalParametersCollection",
-- 
2.43.0


From 2afc1bf75547650d44e980481af7f7d0db6ac183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:35 +0000
Subject: [PATCH 22/78] fix: input files of a run that have the same name are
 all kept

---
 seyfert/utils/workspace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index 8041c12..e440dc5 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -231,11 +231,16 @@ class WorkSpace:
         input_files_dir = fsu.get_input_files_dir_for_rundir(self.run_dir)
         input_files_dir.mkdir(exist_ok=True)
         input_files_dict = {}
+        used_names = {'params.json'}
 
         for name, input_file in src_input_files.items():
             src = Path(input_file)
             dst = input_files_dir / src.name
-            shutil.copy(src, dst)
+            while dst.name in used_names:
+                dst = dst.with_name(f'{name}_{dst.name}')
+            used_names.add(dst.name)
+            if not (dst.exists() and dst.samefile(src)):
+                shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
         params_file = input_files_dir / 'params.json'
-- 
2.43.0


From a5997de6901255f54b28f1248ff093f38ea58741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 23/78] fix: count_down ends for a fractional number of seconds

---
 seyfert/main/bsub_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..04d74c5 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -18,8 +18,8 @@ class ExitedBatchJobError(Exception):
 
 
 def count_down(t):
-    while t:
-        time.sleep(1)
+    while t > 0:
+        time.sleep(min(1, t))
         t -= 1
 
 
-- 
2.43.0


From 562f3ba3297ad5d73bb7153253477e15f36ab28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 24/78] fix: bjobs rows of users whose name is not all
 lower-case letters are read

---
 seyfert/main/bsub_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 04d74c5..a0f6f6e 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -26,7 +26,7 @@ def count_down(t):
 class BsubInterface:
     _bjobs_out_regex_dict = {
         "JOBID": r"([0-9]+)",
-        "USER": r"([a-z]+)",
+        "USER": r"(\S+)",
         "STAT": r"([A-Z]+)",
         "QUEUE": r"([a-z]+)",
         "FROM_HOST": r"([a-z0-9\.]+)",
@@ -35,7 +35,7 @@ class BsubInterface:
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^[ \t]*([0-9]+)[ \t]+(\S+)[ \t]+([A-Z]+)\b", re.MULTILINE)
 
     def __init__(self):
         self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
-- 
2.43.0


From 2a3a63cf0828b2c77c7fa0093aa8e64dfe83fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 25/78] fix: batch jobs bjobs does not list are not taken for
 finished

---
 seyfert/main/bsub_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index a0f6f6e..b1c8413 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -150,6 +150,7 @@ class BsubInterface:
         num_checks_lim_log = 10
         max_time_wait_s = max_time_wait_h * 3600
         t0 = time.time()
+        pending_ids = {str(job_id) for job_id in job_ids}
         while True:
             if check_counter < num_checks_lim_log:
                 logger.info(f"Waiting for {check_time_resolution_secs} s")
@@ -160,7 +161,9 @@ class BsubInterface:
                 logger.info(f"Checking jobs status, check number: {check_counter}")
 
             status_df = self.getBjobsTable(job_ids, bjobs_opts=bjobs_opts)
-            if all(status_df["STAT"] == 'DONE'):
+            # bjobs may not list a job yet, or no longer: only jobs seen as DONE are finished
+            pending_ids -= set(status_df.loc[status_df["STAT"] == 'DONE', "JOBID"])
+            if not pending_ids:
                 logger.info(f"Jobs {job_ids[0]}-{job_ids[-1]} have finished")
                 break
             else:
-- 
2.43.0


From 1fcc770eb0712bd3cc211a389a5add223442d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 26/78] fix: durations of more than a day are reported in full

---
 seyfert/main/bsub_utils.py   | 2 +-
 seyfert/main/report_maker.py | 2 +-
 seyfert/main/task_runners.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index b1c8413..f08c168 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -203,7 +203,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..b18e9fb 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times["tf"] - times["ti"]).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..2033b56 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -604,7 +604,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From f80837cc72dcbc2b36425b39e6d54a38cc3f62d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 27/78] fix: resource usage of jobs run after 2021

---
 seyfert/main/bsub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f08c168..5887bb6 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -186,7 +186,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_[0-9]{4}-")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
-- 
2.43.0


From ca7f963f9b4b99e7f4a38134fa58bbf639e4b845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 28/78] fix: report of a job without an error file

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index b18e9fb..5ff6994 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -59,7 +59,7 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.err_file.read_text() if self.err_file is not None else ""
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
-- 
2.43.0


From 417117facacf697f46476f48b6016ad427182a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 29/78] fix: job reports find the output and error files bsub
 is told to write, of the last submission

---
 seyfert/main/report_maker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 5ff6994..39e64a4 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -66,8 +66,8 @@ class JobReport:
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        self.err_file = self.getFilePathFromJobdirWithPattern('*job*.err')
+        self.out_file = self.getFilePathFromJobdirWithPattern('*job*.out')
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
@@ -127,8 +127,9 @@ class JobReport:
         return f'{year} {month} {int(day):02} {time}'
 
     def getFilePathFromJobdirWithPattern(self, pattern: str) -> "Union[Path, None]":
-        file_candidates = list(self.jobdir.glob(f'{pattern}'))
-        file_path = file_candidates[0] if len(file_candidates) > 0 else None
+        # The names of files of the same kind end with the date: the last one is that of the last submission
+        file_candidates = sorted(self.jobdir.glob(f'{pattern}'))
+        file_path = file_candidates[-1] if len(file_candidates) > 0 else None
         return file_path
 
 
-- 
2.43.0


From 21b626306c6d671280f10e5c715deb7489a2aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 30/78] fix: job reports sorted by number

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 39e64a4..61357e9 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -170,7 +170,7 @@ class TaskReportMaker:
         self.n_jobs = len(self.job_reports)
         self.mean_exec_time /= self.n_jobs
         if all([x.job_id is not None for x in self.job_reports]):
-            self.job_reports.sort(key=lambda x: x.job_id)
+            self.job_reports.sort(key=lambda x: int(x.job_id))
 
     def writeToFiles(self, report_outfile=None, summary_outfile=None) -> None:
         summary_outfile.write(self.summary)
-- 
2.43.0


From 8fad573f0393d70277880792f8e7ec9e9746b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 31/78] fix: a job that exits with an error and prints nothing
 has failed

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 2033b56..47c9b7c 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,7 +156,7 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.stderr or proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
             raise JobFailError(f"Command {cmd} failed")
         if proc.stdout:
-- 
2.43.0


From 7d04e5bf0589b8831b5db1e1e8e893e148092065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 32/78] fix: a forecast whose final results cannot be evaluated
 has failed

---
 seyfert/main/task_runners.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 47c9b7c..0ec3b86 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -592,7 +592,9 @@ class ForecastRunner:
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
         res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
-        sp.run(res_cmd, shell=True)
+        proc = sp.run(res_cmd, shell=True)
+        if proc.returncode != 0:
+            raise JobFailError(f"Command {res_cmd} failed")
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
-- 
2.43.0


From 9f30fe6e0767012127d510d8e2ecc96809a4106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 33/78] fix: a task can be run again in its run directory:
 densities are written anew

---
 seyfert/main/task_runners.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 0ec3b86..364af44 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -548,8 +548,9 @@ class ForecastRunner:
             z_grid = cosmo.z_grid
 
         densities = cl_core.compute_densities(probe_configs=self.forecast_config.probe_configs, z_grid=z_grid)
-        for name in densities:
-            densities[name].saveToHDF5(self.workspace.niz_file, root=name)
+        with fsu.complete_file(self.workspace.niz_file) as file:
+            for name in densities:
+                densities[name].saveToHDF5(file, root=name)
 
     def computeDeltaCls(self):
         logger.info("Computing delta cls")
-- 
2.43.0


From 492895b5b6c766312a6fa297f0bd58d0735c5959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 34/78] fix: a job can be run again in its directory: its
 results are written anew

---
 bin/compute_cls              | 3 ++-
 bin/compute_delta_cls        | 4 +++-
 bin/compute_pmm              | 3 ++-
 seyfert/main/task_runners.py | 3 ++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bin/compute_cls b/bin/compute_cls
index bfaf957..0f7997d 100755
--- a/bin/compute_cls
+++ b/bin/compute_cls
@@ -62,7 +62,8 @@ def main(args_dict):
     outfile_name = 'cl_%s.h5' % ("_".join(forecast_config.present_probes))
     outfile = workdir / outfile_name
     logger.info(f'Writing results to file {outfile}')
-    cl_collector.saveToHDF5(outfile)
+    with fsu.complete_file(outfile) as file:
+        cl_collector.saveToHDF5(file)
     tf = time.time()
     logger.info(f'Total elapsed time: {fm.string_time_format(tf-t0)}')
 
diff --git a/bin/compute_delta_cls b/bin/compute_delta_cls
index c96b010..db3670e 100755
--- a/bin/compute_delta_cls
+++ b/bin/compute_delta_cls
@@ -3,6 +3,7 @@ import argparse
 import logging
 from pathlib import Path
 
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.main.cl_core import compute_delta_cls
 from seyfert.utils.general_utils import configure_logger
@@ -22,7 +23,8 @@ def program_options() -> "argparse.ArgumentParser":
 def main(args):
     ws = WorkSpace(args.rundir)
     delta_cls = compute_delta_cls(ws)
-    delta_cls.saveToHDF5(ws.delta_cls_file)
+    with fsu.complete_file(ws.delta_cls_file) as file:
+        delta_cls.saveToHDF5(file)
 
 
 if __name__ == '__main__':
diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..f4b75ce 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -44,7 +44,8 @@ def main(args_dict):
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
-    cosmology.saveToHDF5(p_mm_file)
+    with fsu.complete_file(p_mm_file) as file:
+        cosmology.saveToHDF5(file)
 
 
 if __name__ == '__main__':
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 364af44..c6619f6 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -556,7 +556,8 @@ class ForecastRunner:
         logger.info("Computing delta cls")
         if self.args.execution != 'no':
             delta_cls = cl_core.compute_delta_cls(self.workspace)
-            delta_cls.saveToHDF5(self.workspace.delta_cls_file)
+            with fsu.complete_file(self.workspace.delta_cls_file) as file:
+                delta_cls.saveToHDF5(file)
         else:
             logger.info('Execution is "no", skipping DeltaCls computation')
 
-- 
2.43.0


From aa2e4f758283ae8e1d0f501d7df2df287c9374d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 35/78] fix: batch forecasts whose log file is already in the
 run directory

---
 seyfert/main/seyfert_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index ff71cac..ae1eeda 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -185,7 +185,9 @@ def do_forecast(args_dict, logfile):
 
     create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
-    shutil.copy(logfile, ws.run_dir / Path(logfile).name)
+    run_logfile = ws.run_dir / Path(logfile).name
+    if not (run_logfile.exists() and run_logfile.samefile(logfile)):
+        shutil.copy(logfile, run_logfile)
 
 
 def get_interactive_run_command(args_dict: "Dict") -> "str":
-- 
2.43.0


From 9508e19490a09f570f380f961d779969497d5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 36/78] fix: batch forecasts read the input data they are given

---
 seyfert/main/seyfert_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index ae1eeda..14e39a3 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -228,7 +228,7 @@ def submit_batch_jobs(args_dict, forecast_configs):
         logs_path.mkdir(exist_ok=True, parents=True)
 
         logger.info(f"Submitting run with forecast config {fcfg_file.name}")
-        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=fsu.default_seyfert_input_data_dir())
+        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=args_dict['input_data_dir'])
         bsub_opts = compute_bsub_options(args_dict, fcfg)
         bsi.setOptions(**bsub_opts)
         arguments = {}
-- 
2.43.0


From e09fb987c51b2f4288a76976953a7bea604def7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 37/78] fix: final results fix every cosmological parameter the
 cosmology does not have

---
 seyfert/fisher/final_results_core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/seyfert/fisher/final_results_core.py b/seyfert/fisher/final_results_core.py
index 722e288..a2c6468 100644
--- a/seyfert/fisher/final_results_core.py
+++ b/seyfert/fisher/final_results_core.py
@@ -65,13 +65,9 @@ def create_results_for_cosmology(fisher_matrices, cosmology, params, post_fisher
         name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
         if name in free_params_names
     }
-    fixed_cosmo_pars = {
-        name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
-        if name not in free_params_names
-    }
 
     for fisher_name in Fs:
-        Fs[fisher_name].fixParameters(set(fixed_cosmo_pars))
+        Fs[fisher_name].fixParameters(Fs[fisher_name].cosmological_parameters - free_params_names)
 
     if fix_nuisance:
         for fisher_name in Fs:
-- 
2.43.0


From baebd0f710ae16c2c891ece0fdb44e10440b320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 38/78] fix: an analysis given a list of Fisher matrices
 contains them

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..9ad7f4a 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices = {f.name: f for f in fisher_matrices}
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From 49258c163925641251bb54cf738131ade9d270fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 39/78] fix: collected analyses can be selected by options
 which are strings

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..6e15fd2 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -119,7 +119,7 @@ class ResultsCollector:
         self.analyses_df.reset_index(inplace=True)
 
     def getFisherAnalysesSubDf(self, sel_dict: "Dict", sel_fishers: "List[str]" = None) -> "pd.DataFrame":
-        query_str = " and ".join(f"{key} == {value}" for key, value in sel_dict.items())
+        query_str = " and ".join(f"{key} == {value!r}" for key, value in sel_dict.items())
         subdf = self.analyses_df.query(query_str).reset_index()
 
         if sel_fishers is not None:
-- 
2.43.0


From 9f78f950073acee32f9c38d2708042f2a0e5d4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 40/78] fix: relative errors follow the Fisher matrices
 replaced with those of 4 bins

---
 seyfert/fisher/results_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 6e15fd2..acea969 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -115,6 +115,8 @@ class ResultsCollector:
                     if "Pk" in fisher_name:
                         an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
                         an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
+                        an_current.relative_marginalized_errors.loc[fisher_name] = \
+                            an_4_bins.relative_marginalized_errors.loc[fisher_name]
 
         self.analyses_df.reset_index(inplace=True)
 
-- 
2.43.0


From 9bba89dbda72ef06fd6267b064ae037324ee4a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:18 +0000
Subject: [PATCH 41/78] fix: a subset can be taken of an analysis which did not
 load base Fishers

---
 seyfert/fisher/fisher_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 9ad7f4a..23585b0 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -233,7 +233,8 @@ class FisherAnalysis:
     def getSubsetAnalysis(self, fisher_names: "List[str]", recompute_errs=False) -> "FisherAnalysis":
         an = copy.deepcopy(self)
 
-        an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
+        if self.base_fishers is not None:
+            an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
         an.fisher_matrices = gu.subset_dict(self.fisher_matrices, fisher_names)
         an.fishers_order = fisher_names
         if recompute_errs:
-- 
2.43.0


From f6803a4bdd89eeb39420d476ca60ad3e395211c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 42/78] fix: orchestrated runs read the input data they are
 given

---
 seyfert/main/orchestration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..7bf103a 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -162,7 +162,7 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
+    input_data_dir = get_input_data_dir(args)
 
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
@@ -226,7 +226,7 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     input_files = ws.theInputFilesDict()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
+        'i': get_input_data_dir(args),
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
@@ -239,6 +239,13 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     subprocess.run(cmd, shell=True)
 
 
+def get_input_data_dir(args: "argparse.Namespace") -> "Path":
+    if args.input_data_dir is not None:
+        return Path(args.input_data_dir).resolve()
+
+    return fsu.default_seyfert_input_data_dir()
+
+
 def update_key_val_args_from_cli_args(args: "argparse.Namespace", keyval_args: "Dict"):
     keyval_args.update({
         'ex': args.execution, 'q': args.queue, 'ncj': args.n_cores_per_job, 'mem': args.memory
-- 
2.43.0


From 8e9a1ec93d27b9b540560c6b6fc024585cc4bdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 43/78] fix: an orchestrated campaign collects the directories
 of its own runs only

---
 seyfert/main/orchestration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 7bf103a..0c15131 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -8,6 +8,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -259,7 +260,7 @@ def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
     rundirs = []
     for x in workdir.iterdir():
         if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
+            if any(f"{x.name}_".startswith(f"{run_id}_{VERSION}_") for run_id in run_ids):
                 rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 0bbee359db77c921047377c17aa5f1f90d491550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 44/78] fix: run directories can be given in json files, as
 orchestrate_run lists them

---
 bin/evaluate_final_results | 2 +-
 bin/orchestrate_run        | 2 +-
 seyfert/config/cmd_line.py | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/bin/evaluate_final_results b/bin/evaluate_final_results
index 5a070ed..7acb241 100755
--- a/bin/evaluate_final_results
+++ b/bin/evaluate_final_results
@@ -66,7 +66,7 @@ def main(args: "argparse.Namespace"):
     script_name = Path(__file__).name
     workdir = args.workdir
     general_utils.configure_logger(logger, logfile=workdir / f"logfile_{script_name}.log")
-    input_rundirs = cmd_line.get_paths_from_files_list(args.input_rundirs)
+    input_rundirs = cmd_line.get_rundirs_from_files_list(args.input_rundirs)
     execution = args.execution
 
     if execution == 'interactive':
diff --git a/bin/orchestrate_run b/bin/orchestrate_run
index 8573972..778775d 100755
--- a/bin/orchestrate_run
+++ b/bin/orchestrate_run
@@ -76,7 +76,7 @@ def main(args):
         input_rundirs = args.rundirs
 
         if input_rundirs is not None:
-            input_rundirs = cmd_line.get_paths_from_files_list(input_rundirs)
+            input_rundirs = cmd_line.get_rundirs_from_files_list(input_rundirs)
             orchestration.do_multiple_seyfert_runs_on_existing_rundirs(args, input_rundirs=input_rundirs)
         else:
             # overwrite default forecast configs list if argument -fcfgs is passed
diff --git a/seyfert/config/cmd_line.py b/seyfert/config/cmd_line.py
index 96891ae..cee5763 100644
--- a/seyfert/config/cmd_line.py
+++ b/seyfert/config/cmd_line.py
@@ -224,6 +224,14 @@ def forecast_dirs_paths_options() -> "argparse.ArgumentParser":
     return parser
 
 
+def get_rundirs_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Path]":
+    if all(Path(path).suffix == '.json' for path in paths_list):
+        logger.info("paths list contains only json files")
+        return [Path(rundir) for file in paths_list for rundir in read_json_txt_list_file(file)]
+
+    return get_paths_from_files_list(paths_list)
+
+
 def get_paths_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Path]":
     resulting_paths = []
 
-- 
2.43.0


From e60c6011eef41fa777320809e843020280d70278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 45/78] fix: options of an ini file have the type they have on
 the command line

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..8eff1d6 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -131,6 +131,6 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        arguments_dict.update(gu.convert_keyval_params_type(dict(ini_kwargs)))
 
     main(arguments_dict)
-- 
2.43.0


From 743b86de0c5ec1bd85c8821348969c9f03fcc480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 46/78] fix: forecast configurations of different sky fractions
 are not equal

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..a4e55d4 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -169,7 +169,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
-- 
2.43.0


From b7bfebd8b7d7d68e044f35c857298198af7d1513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 47/78] fix: additional patterns do not replace the mandatory
 ones in selecting directories

---
 seyfert/utils/dir_explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/dir_explorer.py b/seyfert/utils/dir_explorer.py
index 4aa8b5a..5261423 100644
--- a/seyfert/utils/dir_explorer.py
+++ b/seyfert/utils/dir_explorer.py
@@ -35,7 +35,7 @@ class DirectoryExplorer:
 
     def getDirMatches(self, direc: "Path", add_patterns: "List[str]" = None) -> "List[re.Match]":
         matches = self.getMandatoryDirectoryMatches(direc)
-        if add_patterns is not None:
+        if matches and add_patterns is not None:
             matches += [re.search(pattern, direc.name) for pattern in add_patterns]
 
         return matches
-- 
2.43.0


From cd376f72cebff9201aa5bceae1c93edffaa3b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 48/78] fix: Newton-Cotes weights of the last points along the
 integration axis

---
 seyfert/numeric/integration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/numeric/integration.py b/seyfert/numeric/integration.py
index 9d15764..037bb4d 100644
--- a/seyfert/numeric/integration.py
+++ b/seyfert/numeric/integration.py
@@ -97,7 +97,8 @@ class CompositeNewtonCotesIntegrator:
             slc = [slice(None)] * len(self.y.shape)
             slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
             yend = self.y[tuple(slc)]
-            last_bin_contrib = dx * np.sum(aend * yend, axis=axis)
+            # the weights multiply the points along the integration axis, which need not be the last one
+            last_bin_contrib = dx * np.tensordot(aend, yend, axes=(0, axis))
 
             result += last_bin_contrib
 
-- 
2.43.0


From 44d1cc72f85778bd400b73e367c8527f90ccbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 49/78] fix: percentage absolute difference of tables with
 negative values

---
 seyfert/numeric/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index b9cb6fc..df87daa 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -44,7 +44,7 @@ def pad(x: "Any", y: "Any") -> "Any":
                             f"columns of x missing from y {set(x.columns) - set(y.columns)} \n"
                             f"columns of y missing from x {set(y.columns) - set(x.columns)} \n")
 
-        den = np.where(x + y != 0, (x + y)/2, 1)
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
         num = np.abs(x - y)
         res = pd.DataFrame(100*(num / den), index=x.index, columns=x.columns)
     else:
-- 
2.43.0


From 07711b430dbc6608881495ae13af8d9af3250b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 50/78] fix: a density loaded into an existing object keeps
 nothing of the previous one

---
 seyfert/cosmology/redshift_density.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9f42cec..4e7a87f 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -210,6 +210,12 @@ class H5Density(AbstractH5FileIO):
     def writeToObject(self, obj: "RedshiftDensity") -> "None":
         super(H5Density, self).writeToObject(obj)
         obj.probe = self.attrs['probe']
+        # nothing of a density previously held by the object goes with the one of the file
+        for name in ('z_grid', 'norm_density_iz', 'dN_dOmega_bins', 'bin_norm_factors', 'input_n_iz', 'input_dN_dz_dOmega',
+                     'n_iz_splines', 'dN_dz_dOmega_spline'):
+            setattr(obj, name, None)
+        obj.instrument_response = {}
+        obj.ready_to_evaluate = False
         self.populateObject(obj, base_grp_path=self.root_path)
         if not obj.has_niz_from_input:
             obj.instrument_response = {
-- 
2.43.0


From f4fef46f06e30590d62b6e6b3cfb95be1980e931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 51/78] fix: compute_pmm takes the growth factor after the
 power spectrum it comes from

---
 bin/compute_pmm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index f4b75ce..ba5c5d0 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,9 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
+    # the growth factor is taken from the linear power spectrum
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     with fsu.complete_file(p_mm_file) as file:
-- 
2.43.0


From b043d026170aa8c6a01aff655d787314f708827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 52/78] fix: a bias loaded into an existing object keeps
 neither model nor results of the previous one

---
 seyfert/cosmology/bias.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index 9b1c5e1..60a844b 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -140,6 +140,10 @@ class H5Bias(AbstractH5FileIO):
         super(H5Bias, self).writeToObject(obj)
         obj.probe = self.attrs['probe']
         obj.model_name = self.root['bias_model'].attrs['model_name']
+        # the model and the results of a bias previously held by the object do not go with the one of the file
+        obj.model = None
+        obj.z_grid = None
+        obj.b_i_z = None
         if 'z_bin_edges' in self.root:
             obj.z_bin_edges = self.root['z_bin_edges'][()]
         obj.additional_parameters = {
-- 
2.43.0


From eb13446e27543aaacac547530f057d775c0ca90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 53/78] fix: comparing objects of different shapes, labels or
 missing parts raised or broadcast

---
 seyfert/base_structs/generic_dict.py  |  2 +-
 seyfert/config/probe_config.py        |  4 ++--
 seyfert/cosmology/c_ells.py           |  6 +++---
 seyfert/cosmology/cosmology.py        |  2 +-
 seyfert/cosmology/power_spectrum.py   | 12 ++++++------
 seyfert/cosmology/weight_functions.py |  3 ++-
 seyfert/fisher/delta_cl.py            |  8 ++++----
 seyfert/fisher/fisher_matrix.py       |  6 ++++--
 seyfert/utils/general_utils.py        |  2 +-
 9 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/seyfert/base_structs/generic_dict.py b/seyfert/base_structs/generic_dict.py
index f8ec397..5a77bff 100644
--- a/seyfert/base_structs/generic_dict.py
+++ b/seyfert/base_structs/generic_dict.py
@@ -36,7 +36,7 @@ class GenericDictInterface(Mapping[_KeyType, _ValueType], ABC):
         return iter(self._base_dict)
 
     def __eq__(self, other: "GenericDictInterface") -> "bool":
-        return self._base_dict == other._base_dict
+        return isinstance(other, GenericDictInterface) and self._base_dict == other._base_dict
 
     def __repr__(self):
         return self._base_dict.__repr__()
diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..e80aca2 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -122,8 +122,8 @@ class ProbeConfig:
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
             self.name == other.name,
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
             self.nuisance_parameters == other.nuisance_parameters,
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 59538ff..f6d5133 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -286,9 +286,9 @@ class AngularCoefficient:
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
-            np.all(self.c_lij == other.c_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.c_lij, other.c_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
         ])
 
     def plot(self, what: "str" = "cl", axes: "np.ndarray[plt.Axes]" = None,
diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index fd46915..90c394a 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -382,7 +382,7 @@ class Cosmology:
                 self.power_spectrum = PowerSpectrum.fromHDF5(file, root)
 
     def __eq__(self, other: "Cosmology") -> "bool":
-        return all([
+        return isinstance(other, Cosmology) and all([
             self.params == other.params,
             self.model_name == other.model_name,
             self.is_flat == other.is_flat,
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..ff46963 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -111,12 +111,12 @@ class PowerSpectrum:
         h5pmm.closeFile()
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
-        return all([
-            np.all(self.z_grid == other.z_grid),
-            np.all(self.k_grid == other.k_grid),
-            np.all(self.lin_p_mm_z_k == other.lin_p_mm_z_k),
-            np.all(self.nonlin_p_mm_z_k == other.nonlin_p_mm_z_k),
-            np.all(self.transfer_function == other.transfer_function)
+        return isinstance(other, PowerSpectrum) and all([
+            np.array_equal(self.z_grid, other.z_grid),
+            np.array_equal(self.k_grid, other.k_grid),
+            np.array_equal(self.lin_p_mm_z_k, other.lin_p_mm_z_k),
+            np.array_equal(self.nonlin_p_mm_z_k, other.nonlin_p_mm_z_k),
+            np.array_equal(self.transfer_function, other.transfer_function)
         ])
 
 
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 8407ac4..0a25cd4 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -121,7 +121,8 @@ class WeightFunction(ABC):
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
     def __eq__(self, other: "WeightFunction") -> bool:
-        return np.all(self.z_grid == other.z_grid) and np.all(self.w_bin_z == other.w_bin_z)
+        return isinstance(other, WeightFunction) and np.array_equal(self.z_grid, other.z_grid) and \
+            np.array_equal(self.w_bin_z, other.w_bin_z)
 
 
 # noinspection PyTypeChecker
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index be0fe84..3ebb31b 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -75,10 +75,10 @@ class DeltaCl:
 
     def __eq__(self, other: "DeltaCl") -> "bool":
         return all([
-            np.all(self.delta_c_lij == other.delta_c_lij),
-            np.all(self.noise_lij == other.noise_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths)
+            np.array_equal(self.delta_c_lij, other.delta_c_lij),
+            np.array_equal(self.noise_lij, other.noise_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths)
         ])
 
     def computeNoise(self) -> "np.ndarray":
diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index eb0a129..b931e36 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -161,8 +161,10 @@ class FisherMatrix:
         return fisher_sum
 
     def __eq__(self, other: "FisherMatrix") -> "bool":
-        return all([np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
-                           other.matrix.sort_index(axis=0).sort_index(axis=1)),
+        matrix, other_matrix = [f.matrix.sort_index(axis=0).sort_index(axis=1) for f in (self, other)]
+        return all([matrix.index.equals(other_matrix.index),
+                    matrix.columns.equals(other_matrix.columns),
+                    np.array_equal(matrix.values, other_matrix.values),
                     self.name == other.name,
                     self.physical_parameters == other.physical_parameters])
 
diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 3c3ecbb..72f380c 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -145,7 +145,7 @@ def compare_objects(obj1: "object", obj2: "object", exclude_attrs: "Set") -> boo
             except AttributeError:
                 raise AttributeError(f'obj1 {obj1} and/or {obj2} have no attribute {key}')
             if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
-                cond = np.all(value1 == value2)
+                cond = np.array_equal(value1, value2)
             else:
                 cond = value1 == value2
             conds.append(cond)
-- 
2.43.0


From 2ff27b64696a5f5f39bdb1d3290bfeb1765b2ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 54/78] fix: workspaces of a scenario are those of that
 scenario only

---
 seyfert/notebook_helpers/load_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/load_helpers.py b/seyfert/notebook_helpers/load_helpers.py
index f783ec1..fb111af 100644
--- a/seyfert/notebook_helpers/load_helpers.py
+++ b/seyfert/notebook_helpers/load_helpers.py
@@ -32,7 +32,7 @@ def replace_hybrid_fishers_with_4_bins_equivalents(analyses: "Dict[int, FisherAn
 def load_workspaces_for_scenario(scenario: "str", gcph_sub_flag=False,
                                  base_dir=None) -> "Dict[int, workspace.WorkSpace]":
 
-    generic_regex = re.compile(r"^(?P<scenario>optm|pess)_(?P<nbins>[0-9]+)_sp_bins_")
+    generic_regex = re.compile(rf"^(?P<scenario>{scenario})_(?P<nbins>[0-9]+)_sp_bins_")
     gcph_sub_gcsp_regex = re.compile(r"gcph_minus_gcsp")
 
     if base_dir is None:
-- 
2.43.0


From 367a5bfb1f9670af6bd90413622625227de115c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 55/78] fix: a forecast configuration loaded over another keeps
 neither its probes nor its shot noise file

---
 seyfert/config/forecast_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index a4e55d4..38ef13e 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -111,6 +111,8 @@ class ForecastConfig:
         self.input_data_dir = fsu.get_forecast_input_data_dir_from_rundir(rundir)
 
     def loadProbeConfigurationsFromJSONConfig(self):
+        self.probe_configs = {}
+        self.shot_noise_file = None
         for name, probe_dict in self.json_config.probes.items():
             if probe_dict['presence_flag']:
                 long_name = ProbeName(name).toLong().name
-- 
2.43.0


From c8a9aba8f55cec068ed20b2bf8c634fce0845866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 56/78] fix: multipoles of two probes which differ by rounding
 only are the same multipole

---
 seyfert/config/forecast_config.py | 11 +++++++++++
 seyfert/utils/array_utils.py      |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index 38ef13e..cc692cc 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -120,6 +120,8 @@ class ForecastConfig:
                 probe_cfg.loadFromJSONConfig(self.json_config)
                 self.probe_configs[long_name] = probe_cfg
 
+        self.alignProbesMultipoles()
+
         self.probes_combinations = list(itertools.combinations_with_replacement(self.present_probes, 2))
 
         if "shot_noise_file" in self.json_config.survey:
@@ -142,6 +144,15 @@ class ForecastConfig:
             pcfg.loadAllNuisanceParameters(self.json_config.probes[pcfg.alias_name])
             self.phys_pars.update(pcfg.nuisance_parameters)
 
+    def alignProbesMultipoles(self) -> None:
+        """Multipoles of different probes which differ only by rounding are the same multipole, and have to be the same
+        number, as they are compared when looking for the common ones."""
+        aligned = []
+        for probe_cfg in self.probe_configs.values():
+            for ells in aligned:
+                probe_cfg.l_bin_centers = seyfert.utils.array_utils.align_close_values(probe_cfg.l_bin_centers, ells)
+            aligned.append(probe_cfg.l_bin_centers)
+
     def checkProbesMultipoles(self) -> None:
         for probe_1, probe_2 in self.probes_combinations:
             l_probe_1 = self.probe_configs[probe_1].l_bin_centers
diff --git a/seyfert/utils/array_utils.py b/seyfert/utils/array_utils.py
index dbaf02d..c71efda 100644
--- a/seyfert/utils/array_utils.py
+++ b/seyfert/utils/array_utils.py
@@ -13,6 +13,13 @@ def compute_arrays_intersection1d(arrays: "List[np.ndarray]") -> "np.ndarray":
     return arr_intersection
 
 
+def align_close_values(values: "np.ndarray", reference: "np.ndarray", rtol: "float" = 1e-10) -> "np.ndarray":
+    """Replaces the values which are equal to one of the reference ones except for rounding with the latter."""
+    is_close = np.isclose(values[:, np.newaxis], reference[np.newaxis, :], rtol=rtol, atol=0)
+
+    return np.where(is_close.any(axis=1), reference[is_close.argmax(axis=1)], values)
+
+
 def symmetrize_clij_arr(X: "np.ndarray") -> "np.ndarray":
     return (X + np.transpose(X, axes=(0, 2, 1))) / 2
 
-- 
2.43.0


From e5ee334553fbf3ed13a6da24cb98846b276906dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 57/78] fix: correlation plots of an analysis failed for every
 Fisher matrix

---
 seyfert/fisher/fisher_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..ec8de81 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -320,8 +320,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.analysis.correlation_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
@@ -336,7 +336,7 @@ class FisherPlotter:
         ax = plot_utils.heatmap(corr, usetex=True, vmin=-1.0, vmax=1.0,
                                 cmap='bwr', alpha=0.9, square=True, cbar_kws={'shrink': 0.825})
 
-        ax.set_title(rf'${self.translator.ProbeNameToTeX(name)}$')
+        ax.set_title(rf'${self.translator.translateToTeX(name)}$')
 
         return fig, ax
 
-- 
2.43.0


From 2c08103d4056063362ad21bc1bf47010fa0513de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 58/78] fix: a contour plot of a single parameter failed

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index ec8de81..161d0ec 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -283,7 +283,7 @@ class FisherPlotter:
         plt.rcParams['text.usetex'] = self.config.use_tex
         fig, axes = plt.subplots(nrows=self.n_cosmo_pars, ncols=self.n_cosmo_pars, dpi=self.config.dpi,
                                  figsize=(self.config.fig_size_x_inches, self.config.fig_size_y_inches),
-                                 sharex=False, sharey=False)
+                                 sharex=False, sharey=False, squeeze=False)
 
         self.figure = fig
         self.axes = axes
-- 
2.43.0


From 658ed0abaacc04624d037b83a72115c15839de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 59/78] fix: plot settings given as a dictionary were refused
 or only half taken

---
 seyfert/fisher/fisher_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 161d0ec..dbfd24d 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -258,7 +258,7 @@ class FisherPlotter:
     def setPlotConfig(self, config_file: "Union[str, Path]" = None, use_default=False,
                       config_dict: "Dict" = None) -> "None":
         logger.info("Setting plot configuration")
-        if use_default:
+        if use_default or (config_file is None and config_dict is not None):
             config_file = fsu.config_files_dir() / 'results_config.json'
             logger.info(f"Using default config {config_file}")
         else:
@@ -269,6 +269,7 @@ class FisherPlotter:
         self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
         if config_dict is not None:
             self.config.config_dict.update(config_dict)
+            self.config.setGraphicsProperties()
 
         self.params_ticks_fmts = {name: f"%.{self.config.ticks_label_num_digits}g" for name in self.pars_to_plot}
 
-- 
2.43.0


From 6897b42923e7d49d9fcb81a31210a346fb3e3498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:51 +0000
Subject: [PATCH 60/78] fix: colours of contours were those of the matrices
 first drawn

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index dbfd24d..0438ce2 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -275,7 +275,7 @@ class FisherPlotter:
 
     def getColorForFisher(self, name: "str"):
         idx = self.fishers_order.index(name)
-        if self._colors_arr is None:
+        if self._colors_arr is None or len(self._colors_arr) != len(self.fishers_order):
             self._colors_arr = np.linspace(0, 1, len(self.fishers_order), endpoint=True)
 
         return self.config.cmap(self._colors_arr[idx])
-- 
2.43.0


From d028e408d1af1cd14481443895b422e73775ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 61/78] fix: biases of bins from 10 on had the TeX name of bin
 1

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..dfe5a43 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 8673162cee35024dd87ed5502c23b92cfbf019a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 62/78] fix: parameters chosen after the plot settings could
 not be plotted

---
 seyfert/fisher/fisher_plot.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 0438ce2..a0e4534 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -381,7 +381,7 @@ class FisherPlotter:
         x_min, x_max = self.plot_ranges[name_x]
         x_ticks = np.linspace(x_min, x_max, num=ticks_number, endpoint=True)
         self.axes[i, j].set_xticks(x_ticks)
-        self.axes[i, j].xaxis.set_major_formatter(ticker.FormatStrFormatter(self.params_ticks_fmts[name_x]))
+        self.axes[i, j].xaxis.set_major_formatter(ticker.FormatStrFormatter(self.getTicksFormat(name_x)))
         x_tick_labels = self.axes[i, j].xaxis.get_ticklabels()
         # global properties
         for x_tick_label in x_tick_labels:
@@ -404,7 +404,7 @@ class FisherPlotter:
         else:
             y_min, y_max = self.plot_ranges[name_y]
             y_ticks = np.linspace(y_min, y_max, num=ticks_number, endpoint=True)
-            self.axes[i, j].yaxis.set_major_formatter(ticker.FormatStrFormatter(self.params_ticks_fmts[name_y]))
+            self.axes[i, j].yaxis.set_major_formatter(ticker.FormatStrFormatter(self.getTicksFormat(name_y)))
             self.axes[i, j].set_yticks(y_ticks)
             y_tick_labels = self.axes[i, j].yaxis.get_ticklabels()
             # global properties
@@ -418,6 +418,9 @@ class FisherPlotter:
                 y_tick_label.set_verticalalignment('center')
             """
 
+    def getTicksFormat(self, name: "str") -> "str":
+        return self.params_ticks_fmts.get(name, f"%.{self.config.ticks_label_num_digits}g")
+
     def setPlotRange(self, i: int, j: "int") -> "None":
         name_x = self.pars_to_plot[j]
         name_y = self.pars_to_plot[i]
-- 
2.43.0


From 1c19cef12fbf72b4eb007ba12eda622f07b3895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 63/78] fix: LaTeX rows wrote losses with two signs and lost an
 error without a number of bins

---
 seyfert/notebook_helpers/table_helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..9e3e3c2 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,12 +90,13 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"%+.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
     # Add relative marg errors
-    latex_row += " & ".join([f"{float_fmt}" % el for el in row[3:]])
+    errors = row.drop(["nbins", "fisher", "FoM"], errors="ignore")
+    latex_row += " & ".join([f"{float_fmt}" % el for el in errors])
     latex_row += r" \\"
     latex_row = transl.translateToTeX(latex_row)
 
-- 
2.43.0


From c8ed154dbeacd6a3bdb6fb38886a73209f0cb93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 64/78] fix: no table of figures of merit for a single number
 of bins

---
 seyfert/notebook_helpers/table_helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 9e3e3c2..add5355 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -278,8 +278,10 @@ def get_fom_table_for_fishers(df: "pd.DataFrame", fishers: "List[str]", dfom_map
             diffs["simple"][minuend] = compute_simple_difference(subdf, ref_fisher=ref, minuend_fisher=minuend)
             diffs["perctg"][minuend] = compute_percentage_difference(subdf, ref_fisher=ref, minuend_fisher=minuend)
 
-    diffs["simple"] = pd.concat(diffs["simple"])
-    diffs["perctg"] = pd.concat(diffs["perctg"])
+    for kind in diffs:
+        diffs[kind] = pd.concat(diffs[kind])
+        if isinstance(diffs[kind], pd.Series):
+            diffs[kind] = diffs[kind].unstack()
 
     subdf.insert(1, "Delta FoM", diffs['simple']['FoM'])
     subdf.insert(2, "Delta FoM (%)", diffs['perctg']['FoM'])
-- 
2.43.0


From f2a28ca7ed75e06e4401a79bcbbf48cab17310d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 65/78] fix: spectra of a single bin or of a bin with several
 could not be plotted

---
 seyfert/plot_utils/cl_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/plot_utils/cl_plot.py b/seyfert/plot_utils/cl_plot.py
index 387c447..a83032f 100644
--- a/seyfert/plot_utils/cl_plot.py
+++ b/seyfert/plot_utils/cl_plot.py
@@ -27,7 +27,7 @@ def cl_plot(ell_list: "List[np.ndarray]", cl_data_list: "List[np.ndarray]", labe
     nrows = i_max - i_min + 1
     ncols = j_max - j_min + 1
 
-    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols)
+    fig, axes = plt.subplots(figsize=figsize, nrows=nrows, ncols=ncols, squeeze=False)
     plt.subplots_adjust(wspace=wspace, hspace=hspace)
 
     for i in range(i_min, i_max + 1):
@@ -69,7 +69,7 @@ def grid_plot(x: "np.ndarray", y: "np.ndarray", label: "str" = None, axes: "np.n
     if nrows != ncols and triangular:
         raise Exception("Cannot do traingular plot for non-square grid")
     if axes is None:
-        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize)
+        fig, axes = plt.subplots(nrows=nrows, ncols=ncols, figsize=figsize, squeeze=False)
         plt.subplots_adjust(hspace=hspace, wspace=wspace)
     else:
         fig = plt.gcf()
-- 
2.43.0


From 5e3bb49014bbed5051a4b0e722a2ba8aa677ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:31 +0000
Subject: [PATCH 66/78] fix: difference tables of a part of the results failed
 on the matrices left out

---
 seyfert/notebook_helpers/table_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index add5355..bc63376 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -230,7 +230,7 @@ def compute_percentage_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                          minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.remove_unused_levels().levels[0]
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
@@ -249,7 +249,7 @@ def compute_simple_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                      minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.remove_unused_levels().levels[0]
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
-- 
2.43.0


From fd64febec6cd6412ac5feb95a54ffca2cc0042a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 67/78] fix: checkISTParams removes parameters which are not of
 the IST

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 516abdd..e4cb08b 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -65,7 +65,7 @@ class ISTInputReader:
     def checkISTParams(self):
         our_params = set(IST_PMM_COSMO_MAP.values())
         assert set(self.pars.cosmological_parameters.keys()).issuperset(our_params)
-        for key in self.pars:
+        for key in list(self.pars):
             if key not in our_params:
                 logger.warning(f'param {key} not present in IST params, removing it')
                 del self.pars[key]
-- 
2.43.0


From 762a966902924c514da4d6c190cecafa563fdd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 68/78] fix: IST power spectra are read right whatever the
 order of the rows

---
 seyfert/file_io/ext_input.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index e4cb08b..0eec2ee 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -265,13 +265,12 @@ class ISTInputReader:
     @staticmethod
     def readISTPowerSpectrumTextFile(file: "Union[str, Path]") -> "Tuple[np.ndarray]":
         data = pd.read_table(file, delim_whitespace=True, names=['z', 'k', 'p_lin', 'p_nonlin'])
+        # put z and k axes in increasing order, whatever the order of the rows
+        data = data.sort_values(['z', 'k'])
         z = np.unique(data['z'].to_numpy())
         k = np.unique(data['k'].to_numpy())
         p_lin_zk = data['p_lin'].to_numpy().reshape(len(z), len(k))
         p_nonlin_zk = data['p_nonlin'].to_numpy().reshape(len(z), len(k))
-        # put z axis in increasing order...
-        p_lin_zk = np.flip(p_lin_zk, axis=0)
-        p_nonlin_zk = np.flip(p_nonlin_zk, axis=0)
 
         return z, k, p_lin_zk, p_nonlin_zk
 
-- 
2.43.0


From 3be34110cd77576d45941b5bad5a370a5d7a8b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:23 +0000
Subject: [PATCH 69/78] fix: converted spectra (without kernels) are read back;
 multipoles which differ are reported

---
 seyfert/cosmology/c_ells.py  | 9 +++++----
 seyfert/file_io/ext_input.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index f6d5133..9d87957 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -533,10 +533,11 @@ class H5ClCollection(AbstractH5FileIO):
             h5cl = H5Cl(probe1=p1, probe2=p2)
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
-                obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
-                obj.weight_dict[p2] = cl_obj.weight2
+            if cl_obj.kernel is not None:
+                if p1 not in obj.weight_dict:
+                    obj.weight_dict[p1] = cl_obj.weight1
+                if p2 not in obj.weight_dict:
+                    obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
 
diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 0eec2ee..a7f5d96 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -144,7 +144,7 @@ class ISTInputReader:
             cl_coll.saveToHDF5(out_file)
 
         if len(ell_shapes) != 1:
-            raise ValueError(f'Too many ell shapes: {" ".join(ell_shapes)}')
+            raise ValueError(f'Too many ell shapes: {" ".join(map(str, ell_shapes))}')
 
     def readSCameraClDerivatives(self, src_dir: "Union[str, Path]") -> "Dict":
         src_dir = Path(src_dir)
-- 
2.43.0


From 50bf68ecda73411336ed16a870fd39cbda0b3f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 70/78] fix: parameters with a numpy free flag can be written
 to JSON

---
 seyfert/cosmology/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..041779e 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -77,7 +77,7 @@ class PhysicalParameter:
             'fiducial': self.fiducial,
             'current_value': self.current_value,
             'kind': self.kind,
-            'is_free_parameter': self.is_free_parameter,
+            'is_free_parameter': bool(self.is_free_parameter),
             'stem_factor': self.stem_factor,
             'derivative_method': self.derivative_method,
             'units': self.units
-- 
2.43.0


From 5a3cd805739063078d32a365383aa2363f0610f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 71/78] fix: a prior on a parameter absent from the matrix is
 refused

---
 seyfert/fisher/fisher_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index b931e36..68040bf 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -312,6 +312,10 @@ class FisherMatrix:
         return errs
 
     def addPriorToParameters(self, fiducials_dict: "Dict[str, float]", frac_delta: "float"):
+        missing = set(fiducials_dict) - set(self.index)
+        if missing:
+            raise FisherMatrixError(f"cannot add a prior to missing parameters {missing}")
+
         prior_fisher = pd.DataFrame(np.zeros(self.matrix.shape), index=self.index, columns=self.columns)
         for name, value in fiducials_dict.items():
             sigma_prior = frac_delta * value
-- 
2.43.0


From 2ede8b9c838bab86faaf4a6f52c693072dd18466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:03 +0000
Subject: [PATCH 72/78] fix: loading a file into a Fisher matrix forgets the
 inverse of the previous one

---
 seyfert/fisher/fisher_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 68040bf..3394742 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -396,6 +396,10 @@ class FisherMatrix:
         else:
             raise Exception(f'Unsupported file kind {file_ext}')
 
+        # what was computed from the previous matrix must not be used with the loaded one
+        self.inverse = None
+        self.correlation = None
+
     @classmethod
     def fromHDF5(cls, file: "Union[Path, str]") -> "FisherMatrix":
         f = cls()
-- 
2.43.0


From 39428ea53ac0cd7c5e6eb784bbd505587b701cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 73/78] fix: the smoothing of the power spectrum's spline is
 used as configured

---
 seyfert/config/main_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/main_config.py b/seyfert/config/main_config.py
index ba7c829..f3a3c3f 100644
--- a/seyfert/config/main_config.py
+++ b/seyfert/config/main_config.py
@@ -136,7 +136,7 @@ class AngularConfig(MainConfig):
 
     @property
     def limber_spline_s(self):
-        return int(self.limber_pmm_spline_settings["s"])
+        return float(self.limber_pmm_spline_settings["s"])
 
 
 class DerivativeConfig(MainConfig):
-- 
2.43.0


From ca7baeb26ded184045fcfc50d5364c6caa3a24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 74/78] fix: collections of angular spectra with different
 pairs of probes do not compare equal

---
 seyfert/cosmology/c_ells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 9d87957..dcd916b 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -426,7 +426,7 @@ class AngularCoefficientsCollector:
         return h5cl_coll.load(file, root)
 
     def __eq__(self, other: "AngularCoefficientsCollector") -> "bool":
-        return all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
+        return self.cl_dict == other.cl_dict
         
 
 class H5Cl(AbstractH5FileIO):
-- 
2.43.0


From 3d89a2e5105cb5b9d154a98fc4041eaf693b3e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 75/78] fix: the configuration window writes the IA parameters
 as parameters of Lensing

---
 seyfert/gui/interface_window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 319a3ae..c19ec20 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -204,7 +204,8 @@ class GUIFileInterface:
                     fiducial = float(opts[key].text())
                     is_free_parameter = par_name != 'cIA' and include_IA
                     par_dict = dict(name=par_name, fiducial=fiducial, kind='NuisanceParameter', units='None',
-                                    probe=probe_name, is_free_parameter=is_free_parameter)
+                                    probe=ProbeName(probe_name).toLong().name,
+                                    is_free_parameter=is_free_parameter)
                     extra_nuis_params.append(par_dict)
 
         return extra_nuis_params
-- 
2.43.0


From 4dabb3c805fc975f8a0ba7e3fb91e7fa7b346500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 76/78] fix: configurations written by the window with the Void
 probe can be loaded

---
 seyfert/gui/interface_window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index c19ec20..2da8911 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -170,6 +170,8 @@ class GUIFileInterface:
             json_opts["bias_file"] = opts['bias_file'].text()
         if 'bias_derivative_method' in opts:
             json_opts["bias_derivative_method"] = opts['bias_derivative_method'].currentText()
+        elif 'bias_file' in opts:
+            json_opts["bias_derivative_method"] = "SteM"
         if "marginalize_bias_flag" in opts:
             json_opts["marginalize_bias_flag"] = bool(opts["marginalize_bias_flag"].checkState())
 
-- 
2.43.0


From b57d9e87a88ffeaf49c1169d88db4564808fca10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:56 +0000
Subject: [PATCH 77/78] fix: the configuration window ignores the multipoles
 file when its box is not ticked

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 2da8911..9fb12a7 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -153,7 +153,7 @@ class GUIFileInterface:
         }
 
         ell_input_file = opts['ell_external_filename'].text()
-        if ell_input_file:
+        if ell_input_file and opts['ell_external_checkbox'].checkState():
             json_opts['ell_external_filename'] = ell_input_file
         else:
             json_opts.update({
-- 
2.43.0


From d8595a7e16fe64790cb4c7adee387b4af3baa155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:38 +0000
Subject: [PATCH 78/78] fix: kill_job_submitter finds processes of users whose
 name is not made of letters only

---
 bin/kill_job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/kill_job_submitter b/bin/kill_job_submitter
index 7a7ce03..cc7b616 100755
--- a/bin/kill_job_submitter
+++ b/bin/kill_job_submitter
@@ -4,7 +4,7 @@ import re
 
 ps_out = subprocess.Popen(['ps', '-ef'], stdout=subprocess.PIPE).communicate()[0].decode('utf-8')
 out_lines = [line.strip() for line in ps_out.split('\n')[1:]]
-job_submitter_regex = re.compile(r'^[a-zA-Z]+\s+(?P<pid>[0-9]+).*(\s|/)(job_submitter|orchestrate_run)')
+job_submitter_regex = re.compile(r'^\S+\s+(?P<pid>[0-9]+).*(\s|/)(job_submitter|orchestrate_run)')
 pid = None
 for line in out_lines:
     match = job_submitter_regex.match(line)
-- 
2.43.0

