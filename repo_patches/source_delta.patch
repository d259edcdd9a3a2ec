From 167a9e90e7ec5805bdd09b07cff15c847b002e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 01/29] fix: histograms built from binned data own their bin
 contents

from_binned_data kept the caller's array, so a later fill() changed that
array in place (and failed for integer counts).
---
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 7acf2d1..dc26c06 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -90,7 +90,7 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 21e4da6..b877d86 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -75,7 +75,7 @@ class Hist2d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
-- 
2.43.0


From 96caaa01b9d0ea546eafabaf8cb2d121ea6537c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 02/29] fix: accept any sequence of bin edges

A plain list of edges made bin_mids and bin_widths fail, and the caller's
edge array was shared with the histogram.
---
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index dc26c06..f940445 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -35,7 +35,7 @@ class Hist1d(AbstractHist):
             self._range = range
         else:
             self._num_bins = len(bins) - 1
-            self._bin_edges = bins
+            self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
     def fill(self, data, weights):
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index b877d86..76de021 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -35,8 +35,8 @@ class Hist2d(AbstractHist):
 
         else:
             self._num_bins = tuple(len(edges) - 1 for edges in bins)
-            self._bin_edges = bins
-            self._range = tuple(map(get_bin_range, bins))
+            self._bin_edges = [np.array(edges) for edges in bins]
+            self._range = tuple(map(get_bin_range, self._bin_edges))
 
     def fill(self, data, weights=None):
         if weights is None:
-- 
2.43.0


From a2a5856002059e1238b28175456775425079d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 03/29] fix: Template2d.add_variation adds the covariance of
 the variation

It passed the two varied histograms to _add_cov_mat, which takes a
covariance matrix, so every call raised a TypeError.
---
 templatefitter/templates/template2d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 7d951c9..9f6cc49 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from templatefitter.histograms import Hist2d
 from templatefitter.templates import AbstractTemplate
+from templatefitter.utility import get_systematic_cov_mat
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
 
@@ -57,7 +58,10 @@ class Template2d(AbstractTemplate):
             bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
         )
 
-        self._add_cov_mat(hup, hdown)
+        cov_mat = get_systematic_cov_mat(
+            self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
+        )
+        self._add_cov_mat(cov_mat)
 
     def plot_on(self, fig, ax):
         """Plots the 2d template on the given axis.
-- 
2.43.0


From 03b360dbd48f1587165ad67cddfdc177cb89df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 04/29] fix: systematic variations use the bin edges of the
 template

The varied histograms were always binned equidistantly.
---
 templatefitter/templates/template1d.py | 4 ++--
 templatefitter/templates/template2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/templates/template1d.py b/templatefitter/templates/template1d.py
index f282848..814ccd3 100644
--- a/templatefitter/templates/template1d.py
+++ b/templatefitter/templates/template1d.py
@@ -45,10 +45,10 @@ class Template1d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist1d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
         cov_mat = get_systematic_cov_mat(
             self._flat_bin_counts, hup.bin_counts.flatten(), hdown.bin_counts.flatten()
diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index 9f6cc49..af82086 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -52,10 +52,10 @@ class Template2d(AbstractTemplate):
         """Add a new covariance matrix from a given systematic variation
         of the underlying histogram to the template."""
         hup = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_up
+            bins=self._hist.bin_edges, data=data, weights=weights_up
         )
         hdown = Hist2d(
-            bins=self._hist.num_bins, range=self._range, data=data, weights=weights_down
+            bins=self._hist.bin_edges, data=data, weights=weights_down
         )
 
         cov_mat = get_systematic_cov_mat(
-- 
2.43.0


From 87feca447568acd67aec0c73e4501bf29dc543df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 05/29] fix: fractions of an empty template are zero instead of
 nan

---
 templatefitter/templates/abstract_template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index cd21244..63a15ac 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -240,4 +240,7 @@ class AbstractTemplate(ABC):
 @jit(nopython=True)
 def bin_fractions(nui_params, bin_counts, rel_errors):
     per_bin_yields = bin_counts * (1. + nui_params * rel_errors)
-    return per_bin_yields / np.sum(per_bin_yields)
+    total_yield = np.sum(per_bin_yields)
+    if total_yield == 0.:
+        return np.zeros_like(per_bin_yields)
+    return per_bin_yields / total_yield
-- 
2.43.0


From 12ea2ef2badfdb1c6e8fa49cdc57e357b42250a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 06/29] fix: do not cache channel quantities that can change

The process indices, the efficiencies and the block diagonal inverse
correlation matrix were cached per channel, so a template or covariance
matrix added after the first evaluation was ignored.
---
 templatefitter/templates/channel.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 06d946f..6d8b9c0 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -1,7 +1,7 @@
 import logging
 
 from collections import OrderedDict
-from functools import lru_cache, reduce
+from functools import reduce
 
 from typing import Tuple
 
@@ -146,7 +146,6 @@ class Channel:
                 "Given data histogram is not compatible with the Channel."
             )
 
-    @lru_cache()
     def process_indices(self, outer_process_list):
         """Returns a list of indices for the processes in this
         channel matching the `outer_process_list`.
@@ -456,7 +455,6 @@ class Channel:
 
         return fractions_per_template
 
-    @lru_cache()
     def _get_efficiencies_as_array(self):
         """Returns the efficiencies of the processes in this channel
         as `numpy.ndarray`.
@@ -483,7 +481,6 @@ class Channel:
             nui_params
         )
 
-    @lru_cache()
     def _create_block_diag_inv_corr_mat(self):
         inv_corr_mats = [
             template.inv_corr_mat for template in self._template_dict.values()
-- 
2.43.0


From 338402d6dde6747abf838bcb0b0265e6f1878433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 07/29] fix: covariance of iminuit fits covers fixed parameters

np_matrix skips fixed parameters by default, but the covariance and
correlation are documented to have shape (num_params, num_params).
---
 templatefitter/minimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 484adca..0a5d035 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -297,8 +297,8 @@ class IMinuitMinimizer(AbstractMinimizer):
         self._fcn_min_val = m.fval
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
-        self._params.covariance = m.np_matrix()
-        self._params.correlation = m.np_matrix(correlation=True)
+        self._params.covariance = m.np_matrix(skip_fixed=False)
+        self._params.correlation = m.np_matrix(correlation=True, skip_fixed=False)
 
         self._success = (
             fmin["is_valid"] and fmin["has_valid_parameters"] and fmin["has_covariance"]
-- 
2.43.0


From 5ba3dd272a55f369e984bba3eae97a9a5db604cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 08/29] fix: scipy constraints hold every fixed parameter

The constraint functions closed over the loop variable, so all of them
constrained the parameter fixed last.
---
 templatefitter/minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 0a5d035..8de6e0e 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -439,7 +439,7 @@ class ScipyMinimizer(AbstractMinimizer):
             constraints.append(
                 {
                     "type": "eq",
-                    "fun": lambda x: x[fixed_param] - initial_param_values[fixed_param],
+                    "fun": lambda x, i=fixed_param: x[i] - initial_param_values[i],
                 }
             )
 
-- 
2.43.0


From a51bdedec86bfed07ded2c8cfabcce871def974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 09/29] fix: honour TemplateFitter.fix_nui_params

The flag set by this method was never read.
---
 templatefitter/fitter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index dbedc3b..c29f2c0 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -79,7 +79,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -211,7 +211,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -327,7 +327,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
@@ -352,7 +352,7 @@ class TemplateFitter:
             self._minimizer_id, self._nll, self._nll.param_names
         )
 
-        if fix_nui_params:
+        if fix_nui_params or self._fix_nui_params:
             for i in range(
                 self._templates.num_processes,
                 self._templates.num_nui_params + self._templates.num_processes,
-- 
2.43.0


From 8d75b94198e4d5f2e9e8b3936e7d31c8173aa16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 10/29] fix: the profile honours fixed and bound parameters

The nominal fit of profile() ignored the fixed and bound parameters of the
fitter, and each profile point released all fixed parameters.
---
 templatefitter/fitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index c29f2c0..5c9d776 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -217,6 +217,11 @@ class TemplateFitter:
                 self._templates.num_nui_params + self._templates.num_processes,
             ):
                 minimizer.set_param_fixed(i)
+        for fixed_id in self._fixed_parameters:
+            minimizer.set_param_fixed(fixed_id)
+
+        for bound_id, bounds in self._bound_parameters.items():
+            minimizer.set_param_bounds(bound_id, bounds)
         print("Start nominal minimization")
         result = minimizer.minimize(self._nll.x0, get_hesse=True, verbose=True)
         minimum = result.fcn_min_val
@@ -270,7 +275,6 @@ class TemplateFitter:
         initial_values = args[2]
         param_id = args[3]
 
-        minimizer.release_params()
         param_index = minimizer.params.param_id_to_index(param_id)
         initial_values[param_index] = point
         minimizer.set_param_fixed(param_id)
-- 
2.43.0


From a9c90dfe5855ed76124dc8709d7d3779781282ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 11/29] fix: get_significance leaves the templates unchanged

The yield of the tested process was set to zero in the templates and never
restored.
---
 templatefitter/fitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/fitter.py b/templatefitter/fitter.py
index 5c9d776..412b9c2 100644
--- a/templatefitter/fitter.py
+++ b/templatefitter/fitter.py
@@ -350,8 +350,6 @@ class TemplateFitter:
             return 0
 
         # set signal of template specified by param_id to zero and profile the likelihood
-        self._templates.set_yield(process_id, 0)
-
         minimizer = minimizer_factory(
             self._minimizer_id, self._nll, self._nll.param_names
         )
@@ -369,8 +367,10 @@ class TemplateFitter:
             minimizer.set_param_bounds(param_id, bounds)
 
         minimizer.set_param_fixed(process_id + "_yield")
+        initial_values = self._nll.x0
+        initial_values[minimizer.params.param_id_to_index(process_id + "_yield")] = 0
         print("Background")
-        profile_result = minimizer.minimize(self._nll.x0, verbose=verbose)
+        profile_result = minimizer.minimize(initial_values, verbose=verbose)
 
         q0 = 2 * (profile_result.fcn_min_val - fit_result.fcn_min_val)
         logging.debug(f"q0: {q0}")
-- 
2.43.0


From adb63c094ff5fb0dbed9acbe090379a682dce64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 12/29] fix: corr2cov scales with standard deviations

It takes a vector of variances but used them as standard deviations.
---
 templatefitter/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/utility.py b/templatefitter/utility.py
index d84bb79..f5d3739 100644
--- a/templatefitter/utility.py
+++ b/templatefitter/utility.py
@@ -47,7 +47,7 @@ def corr2cov(corr, var):
     out : np.ndarray
         Covariance matrix. Shape is (n,n).
     """
-    D = np.diag(var)
+    D = np.diag(np.sqrt(var))
     return np.matmul(D, np.matmul(corr, D))
 
 
-- 
2.43.0


From e74dabd22bd8b6e0a4f5e49c16c25928ee9ce3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 13/29] fix: cowan_binned_likelihood_gof handles empty data
 bins

---
 templatefitter/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templatefitter/stats.py b/templatefitter/stats.py
index ee2a4ef..f944173 100644
--- a/templatefitter/stats.py
+++ b/templatefitter/stats.py
@@ -2,6 +2,8 @@ import numpy as np
 from scipy.stats import chi2
 from scipy.integrate import quad
 
+from templatefitter.utility import xlogyx
+
 __all__ = ["pearson_chi2_test", "cowan_binned_likelihood_gof"]
 
 
@@ -91,6 +93,6 @@ def cowan_binned_likelihood_gof(data, expectation, dof):
     float
         p-value.
     """
-    chi_sq = 2 * np.sum(data * np.log(data / expectation) + expectation - data)
+    chi_sq = 2 * np.sum(expectation - data - xlogyx(data, expectation))
     pval = quad(chi2.pdf, chi_sq, np.inf, args=(dof,))[0]
     return chi_sq, chi_sq / dof, pval
-- 
2.43.0


From 4ca1d5c2764ffe84517ad314b45b30a3f9d5a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 14/29] fix: the stacked template likelihood handles empty data
 bins

Its own xlogyx was infinite for empty bins; use the one of the utility
module.
---
 templatefitter/nll.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/templatefitter/nll.py b/templatefitter/nll.py
index a002f0b..2955222 100644
--- a/templatefitter/nll.py
+++ b/templatefitter/nll.py
@@ -12,6 +12,8 @@ from scipy.linalg import block_diag
 
 import warnings
 
+from templatefitter.utility import xlogyx
+
 __all__ = ["AbstractTemplateCostFunction", "StackedTemplateNegLogLikelihood"]
 
 logging.getLogger(__name__).addHandler(logging.NullHandler())
@@ -156,10 +158,3 @@ class StackedTemplateNegLogLikelihood(AbstractTemplateCostFunction):
             nuiss_params @ self._block_diag_inv_corr_mats @ nuiss_params)
 
         return poisson_term + gauss_term
-
-def xlogyx(x, y):
-    """Compute :math:`x*log(y/x)`to a good precision when :math:`y~x`.
-    The xlogyx function is taken from https://github.com/scikit-hep/probfit/blob/master/probfit/_libstat.pyx.
-    """
-    result = np.where(x < y, x*np.log1p((y-x)/x), -x*np.log1p((x-y)/y))
-    return np.nan_to_num(result, nan=np.inf)
-- 
2.43.0


From 33afe3cda82e95b7e72373583770266ec1303d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 15/29] fix: Template.corr_mat of the legacy templates returns
 the correlation matrix

The property returned itself.
---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index 4165137..dcd45f0 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -375,7 +375,7 @@ class Template(AbstractTemplate):
     def corr_mat(self):
         """numpy.ndarray: The correlation matrix of the template errors.
         Shape is (`num_bins`, `num_bins`)."""
-        return self.corr_mat
+        return self._corr
 
     @property
     def inv_corr_mat(self):
-- 
2.43.0


From 5ea580920a9ee2f3d1c57f36f3a783b0c2ec6ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 16/29] fix: Template.plot_on of the legacy templates evaluates
 the values

---
 templatefitter/templates_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates_legacy.py b/templatefitter/templates_legacy.py
index dcd45f0..c32ef8e 100644
--- a/templatefitter/templates_legacy.py
+++ b/templatefitter/templates_legacy.py
@@ -266,7 +266,7 @@ class Template(AbstractTemplate):
             x=self.bin_mids,
             height=2 * self.errors(),
             width=self.bin_width,
-            bottom=self.values - self.errors(),
+            bottom=self.values() - self.errors(),
             color="black",
             hatch="///////",
             fill=False,
-- 
2.43.0


From e7b59775a037ad4959989f83a74d1c4978ca7262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 17/29] fix: calculate_hesse_matrix accepts arrays

The lru_cache requires hashable arguments, so every call with an array
raised a TypeError.
---
 templatefitter/minimizer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 8de6e0e..2f43040 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -2,7 +2,6 @@
 Implementation of a minimizer class based on the scipy.optimize.minimize
 function.
 """
-import functools
 import logging
 from abc import ABC, abstractmethod
 from collections import namedtuple
@@ -446,7 +445,6 @@ class ScipyMinimizer(AbstractMinimizer):
         return constraints
 
     @staticmethod
-    @functools.lru_cache(maxsize=128)
     def calculate_hesse_matrix(fcn, x, args):
         """Calculates the Hesse matrix of callable `fcn` numerically.
 
-- 
2.43.0


From 55f28589ad1fa0eae64bbaaf6526135872eb8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 18/29] fix: a repeated yield constraint replaces the previous
 one

The penalty was added to the likelihood once per call.
---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index 0e4e61b..cdb48b2 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -92,7 +92,8 @@ class MultiChannelTemplate:
     ):
         if process_name not in self._processes:
             raise RuntimeError(f"Process {process_name} not defined.")
-        self._constrained_yields = (*self.constrained_yields, process_name)
+        if process_name not in self._constrained_yields:
+            self._constrained_yields = (*self.constrained_yields, process_name)
         self._constrained_yield_values[process_name] = constr_value
         self._constrained_yield_errors[process_name] = constr_error
 
-- 
2.43.0


From d7555a69df6840519fc2108f57d85ab7926bd182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 19/29] fix: reset restores the nominal yield of the template

The yield was taken from the histogram, which can have been filled further
after the template was created.
---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 63a15ac..48056ac 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -130,7 +130,7 @@ class AbstractTemplate(ABC):
         """Initializes template parameters.
         """
         self._params = np.zeros(self._num_bins + 1)
-        self._params[0] = np.sum(self._hist.bin_counts)
+        self._params[0] = np.sum(self._flat_bin_counts)
 
     def _init_errors(self):
         """The statistical covariance matrix is initialized as diagonal
-- 
2.43.0


From 7bcf3d0a90c040cf656a9942ad0a88d749bdbd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 20/29] fix: templates own their parameter array

---
 templatefitter/templates/abstract_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/templates/abstract_template.py b/templatefitter/templates/abstract_template.py
index 48056ac..b67d425 100644
--- a/templatefitter/templates/abstract_template.py
+++ b/templatefitter/templates/abstract_template.py
@@ -88,7 +88,7 @@ class AbstractTemplate(ABC):
                 "Shape of new parameter array is not compatible to this template."
             )
 
-        self._params = new_values
+        self._params = np.array(new_values, dtype=float)
 
     @property
     def yield_param(self):
-- 
2.43.0


From 68a756476cc77b35665cf469f66e975a0e8d7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 21/29] fix: weights are optional in Hist1d.fill

They are documented to default to None, as in Hist2d.fill.
---
 templatefitter/histograms/hist1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index f940445..0d9d2c6 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -38,7 +38,7 @@ class Hist1d(AbstractHist):
             self._bin_edges = np.array(bins)
             self._range = get_bin_range(self._bin_edges)
 
-    def fill(self, data, weights):
+    def fill(self, data, weights=None):
         """Fills the histogram with given data and weights.
 
         Parameters
-- 
2.43.0


From 875e9c928667075803d28c920c6ea0cd0c4c7b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 22/29] fix: every fit result has its own parameters

All results of a minimizer shared one Parameters object, so a later call
of minimize changed the results returned before, and without get_hesse kept
the errors of the previous minimum.
---
 templatefitter/minimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 2f43040..56fcfff 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -294,6 +294,7 @@ class IMinuitMinimizer(AbstractMinimizer):
         fmin, _ = m.migrad(ncall=20000)
 
         self._fcn_min_val = m.fval
+        self._params = Parameters(self.params.names)
         self._params.values = m.np_values()
         self._params.errors = m.np_errors()
         self._params.covariance = m.np_matrix(skip_fixed=False)
@@ -381,6 +382,7 @@ class ScipyMinimizer(AbstractMinimizer):
                 f"Message: {opt_result.message}"
             )
 
+        self._params = Parameters(self.params.names)
         self._params.values = opt_result.x
         self._fcn_min_val = opt_result.fun
 
-- 
2.43.0


From 9b0c5b12f9fea17bdde860b7f263ad9ca57390ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 23/29] fix: legacy histograms built from binned data own their
 bin contents

---
 templatefitter/histogram_legacy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index d6e105f..bf5cd1f 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -273,7 +273,7 @@ class Hist1d(AbstractHist):
         histogram : Hist1d
         """
         instance = cls(bin_edges)
-        instance._bin_counts = bin_counts
+        instance._bin_counts = np.array(bin_counts, dtype=float)
 
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
-- 
2.43.0


From d9f23e7842f4d4e1e1d99d4ae5d3bb45d4619b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 24/29] fix: channels refuse templates and data with different
 bin edges

Only the number of bins and the range were compared.
---
 templatefitter/templates/channel.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 6d8b9c0..0737202 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -494,9 +494,17 @@ class Channel:
     def _check_template(self, template):
         bins_cond = self._bins == template.bins
         range_cond = self._range == template.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(template.bin_edges)
 
     def _check_hist(self, hist):
         bins_cond = self._bins == hist.shape
         range_cond = self._range == hist.range
-        return bins_cond and range_cond
+        return bins_cond and range_cond and self._check_bin_edges(hist.bin_edges)
+
+    def _check_bin_edges(self, bin_edges):
+        if not self.templates:
+            return True
+        if len(self.bins) == 1:
+            return np.allclose(self.bin_edges, bin_edges)
+        return all(np.allclose(a, b) for a, b in zip(self.bin_edges, bin_edges))
+
-- 
2.43.0


From a7990254b79a775456295e51f0f4f12dc1c2c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 25/29] fix: fixing a parameter twice no longer makes the scipy
 minimization singular

---
 templatefitter/minimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/minimizer.py b/templatefitter/minimizer.py
index 56fcfff..966d1b6 100644
--- a/templatefitter/minimizer.py
+++ b/templatefitter/minimizer.py
@@ -410,7 +410,8 @@ class ScipyMinimizer(AbstractMinimizer):
             in `param_names`.
         """
         param_index = self.params.param_id_to_index(param_id)
-        self._fixed_params.append(param_index)
+        if param_index not in self._fixed_params:
+            self._fixed_params.append(param_index)
 
     def release_params(self):
         """
-- 
2.43.0


From 4f13873804ae3987936575a7034d084e89f65452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 26/29] fix: Template2d.plot_on works with current matplotlib

---
 templatefitter/templates/template2d.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/templatefitter/templates/template2d.py b/templatefitter/templates/template2d.py
index af82086..35f6be0 100644
--- a/templatefitter/templates/template2d.py
+++ b/templatefitter/templates/template2d.py
@@ -3,7 +3,6 @@ from functools import reduce
 from itertools import product
 
 import matplotlib.pyplot as plt
-from matplotlib import cm
 from matplotlib.colors import ListedColormap, LinearSegmentedColormap
 import numpy as np
 
@@ -72,7 +71,7 @@ class Template2d(AbstractTemplate):
 
         xy = np.array(list(product(xe, ye)))
 
-        viridis = cm.get_cmap("viridis", 256)
+        viridis = plt.get_cmap("viridis", 256)
         cmap = viridis(np.linspace(0, 1, 256))
         cmap[0, :] = np.array([1, 1, 1, 1])
         newcm = ListedColormap(cmap)
-- 
2.43.0


From a7ea66d777d8d51af3fbdb9875a243206884ec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 27/29] fix: draw stacked templates without a colour in the
 default colour cycle

Templates have no colour by default, and matplotlib refuses a list of
colours with None in it, so plot_stacked_on and plot_post_fit_stacked_on
failed for them.
---
 templatefitter/templates/channel.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/templatefitter/templates/channel.py b/templatefitter/templates/channel.py
index 0737202..b2bdb78 100644
--- a/templatefitter/templates/channel.py
+++ b/templatefitter/templates/channel.py
@@ -216,7 +216,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
@@ -286,7 +289,10 @@ class Channel:
         bin_edges = next(iter(self.templates.values())).bin_edges
         bin_width = next(iter(self.templates.values())).bin_widths
 
-        colors = [template.color for template in self.templates.values()]
+        colors = [
+            template.color if template.color is not None else f"C{i}"
+            for i, template in enumerate(self.templates.values())
+        ]
         bin_counts = [template.values for template in self.templates.values()]
         labels = [
             template.pretty_label
-- 
2.43.0


From 715ec1a69271fb7bc81d736a420fbd1c96c4e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 28/29] fix: add_data checks all channel names before changing
 any channel

---
 templatefitter/templates/multi_channel_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templatefitter/templates/multi_channel_template.py b/templatefitter/templates/multi_channel_template.py
index cdb48b2..2e14584 100644
--- a/templatefitter/templates/multi_channel_template.py
+++ b/templatefitter/templates/multi_channel_template.py
@@ -167,10 +167,11 @@ class MultiChannelTemplate:
         -------
 
         """
-        for channel, hdata in kwargs.items():
+        for channel in kwargs:
             if channel not in list(self.channels.keys()):
                 raise RuntimeError(f"Channel '{channel}' not defined!")
 
+        for channel, hdata in kwargs.items():
             self.channels[channel].add_data(hdata)
 
     def process_to_index(self, process):
-- 
2.43.0


From ee9d7e3f99dcbd08dae6958b4bf1c6ff03473150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:04 +0000
Subject: [PATCH 29/29] fix: histograms built from binned data accept integer
 bin errors

---
 templatefitter/histogram_legacy.py  | 2 +-
 templatefitter/histograms/hist1d.py | 2 +-
 templatefitter/histograms/hist2d.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/templatefitter/histogram_legacy.py b/templatefitter/histogram_legacy.py
index bf5cd1f..0b77aba 100644
--- a/templatefitter/histogram_legacy.py
+++ b/templatefitter/histogram_legacy.py
@@ -278,7 +278,7 @@ class Hist1d(AbstractHist):
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
 
         return instance
 
diff --git a/templatefitter/histograms/hist1d.py b/templatefitter/histograms/hist1d.py
index 0d9d2c6..14364b8 100644
--- a/templatefitter/histograms/hist1d.py
+++ b/templatefitter/histograms/hist1d.py
@@ -95,7 +95,7 @@ class Hist1d(AbstractHist):
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors**2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float)**2
         instance._is_empty = False
 
         return instance
diff --git a/templatefitter/histograms/hist2d.py b/templatefitter/histograms/hist2d.py
index 76de021..e3f8a2a 100644
--- a/templatefitter/histograms/hist2d.py
+++ b/templatefitter/histograms/hist2d.py
@@ -80,7 +80,7 @@ class Hist2d(AbstractHist):
         if bin_errors is None:
             bin_errors = np.sqrt(bin_counts)
 
-        instance._bin_errors_sq = bin_errors ** 2
+        instance._bin_errors_sq = np.array(bin_errors, dtype=float) ** 2
         instance._is_empty = False
         return instance
 
-- 
2.43.0

