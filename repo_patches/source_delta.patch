From 04886a7487b0a613cd8f8f2483e48159132cf406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 01/82] fix: store imported a module which does not exist

echidna.limit.summary is not part of the package, so importing
echidna.output.store (and everything which uses it: fit, limit and the
scripts) always failed. Neither imported name was used.
---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 23061f1c0e4bb41769a6cec31e70b50782023f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 02/82] fix: shrink sliced the data with a float

numpy.ceil returns a float, so the slice built by Spectra.shrink was
e.g. 0:3.0, which numpy rejects (TypeError): no spectrum could be shrunk
or cut.
---
 echidna/core/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..6edfd9b 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -487,8 +487,8 @@ class Spectra(object):
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
-- 
2.43.0


From a5ace07573d5bf731f8be815e3d6b0fbbe6e0744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 03/82] fix: a rejected rebin left the config rebinned

Spectra.rebin updated the number of bins of each parameter before it had
checked the next one, so a ValueError for the second parameter left the
config of the first out of step with the data. The new number of bins is
also stored as an integer (a float cannot be used as a shape).
---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6edfd9b..4ee83e5 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -359,13 +359,15 @@ class Spectra(object):
         if len(new_bins) != len(self._config.get_pars()):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
-        # Now do the rebinning
         for i, v in enumerate(self._config.get_pars()):
             if self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        # Now do the rebinning
+        new_bins = tuple([int(bins) for bins in new_bins])
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From ce74ade4b5e881ddec2be124a3abf76ceaf77ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 04/82] fix: nd_project and surface summed over the wrong axes

Both sum over axes by their index in the config, but every sum removes an
axis and so moves the ones behind it: projecting a 3-d spectrum onto its
last axis returned the middle one, and a 4-d surface was an AxisError.
---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 4ee83e5..45c0cbf 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,8 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum over the last axes first, so the remaining indices stay valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -595,7 +596,8 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Sum over the last axes first, so the remaining indices stay valid
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From 11c73eb4af91df4ad00a4ba474fb83322b29bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 05/82] fix: SpectraParameter.round ignored where the bins
 start

It returned the nearest multiple of the bin width, which is a bin edge
only if the lower bound is itself a multiple of the width. Shrinking such
an axis stored bounds which were not edges of the remaining bins.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..488672b 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        width = self.get_width()
+        return self._low + round((x - self._low)/width)*width
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From 3f1365150e8716ddf43f6779bef629f7eb2e6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 06/82] fix: the dumped penalty term was the best fit

FitParameter.to_dict stored the best fit under both "best_fit" and
"penalty_term", so reloading a dumped config changed its penalty terms.
---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 488672b..316a174 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -630,7 +630,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 916b4b17d676aec759843405ac9f054f29278ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 07/82] fix: TypeError while reporting an unknown parameter
 value

The % applied to the second half of the message only.
---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 316a174..0a62207 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -513,7 +513,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 919b1d864d056c03fba6dd0f3a9fc9d125aa58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 08/82] fix: logscale_deviation values could number more or
 less than bins

Both sides of the prior were rounded independently (half to even), so e.g.
four bins symmetric about the prior gave three values while the grid still
had four, and a prior at one end lost the prior or the end itself. The
numbers were also floats, which numpy.linspace rejects.
---
 echidna/core/parameter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 0a62207..49ba481 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -460,10 +460,15 @@ class FitParameter(Parameter):
                 delta_high = numpy.absolute(self._high - self._prior)
 
                 # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                # The prior counts once for each side, and both ends have to
+                # be included
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                min_low = 2 if delta_low > 0. else 1
+                min_high = 2 if delta_high > 0. else 1
+                bins_low = max(min(max(bins_low, min_low),
+                                   self._bins + 1 - min_high), 1)
+                bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From 5f172acfaab88b4bffe8d69dcd3212251f230942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 09/82] fix: FitParameter.set_par failed on unset values and
 made bins a float

The log message formatted the old and new value as floats: a TypeError if
either was None (sigma, or any scale flag) or a string (dimension), and a
KeyError instead of the documented TypeError for an unknown name. A float
number of bins cannot be used to build the array of values.
---
 echidna/core/parameter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 49ba481..9e8d415 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -562,8 +562,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -576,7 +576,7 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
             elif kw == "base":
-- 
2.43.0


From 45acaf3c0630ee35e1909a7e2d84f36e86278159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 10/82] fix: check_values never found a prior of zero

It divided the values by the prior, so a parameter with a prior of zero
(any shift) was always reported as missing its prior.
---
 echidna/core/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 9e8d415..d2ad128 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -271,8 +271,8 @@ class FitParameter(Parameter):
             logging.getLogger("extra").debug("\n\n%s\n" % str(bad_values))
 
         # Check prior contained in values
-        if not numpy.any(numpy.around(values / self._prior, 12) ==
-                         numpy.around(1., 12)):
+        if not numpy.any(numpy.isclose(values, self._prior, rtol=1.e-12,
+                                       atol=1.e-12)):
             warnings.warn("Prior not in values array "
                           "for parameter %s" % self._name)
             logging.getLogger("extra").warning(
-- 
2.43.0


From 3ac4d7ae606fd7a2c331d7a20035cc19bcb410d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:22 +0000
Subject: [PATCH 11/82] fix: changing a copied spectrum changed the original

Smearing, shifting, scaling and the fit work on copy.copy(spectrum), which
shared its config and ROIs with the original: shrinking the result changed
the binning of the original, but not its data (fit.py states that it copies
"so original spectra is unchanged").
---
 echidna/core/spectra.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 45c0cbf..6834296 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -62,6 +62,24 @@ class Spectra(object):
         self._num_decays = float(num_decays)
         self._location = None
 
+    def __copy__(self):
+        """ Copies the spectrum, so that changes to the copy (e.g. by
+        :meth:`shrink` or :meth:`scale`) don't affect the original.
+
+        Returns:
+          :class:`Spectra`: The copy, with its own data, binning and ROIs.
+        """
+        spectrum = self.__class__.__new__(self.__class__)
+        spectrum.__dict__.update(self.__dict__)
+        spectrum._data = self._data.copy()
+        spectrum._rois = copy.deepcopy(self._rois)
+        spectrum._style = copy.copy(self._style)
+        spectrum._config = copy.copy(self._config)
+        spectrum._config._parameters = self._config._parameters.__class__(
+            [(name, copy.copy(self._config.get_par(name)))
+             for name in self._config.get_pars()])
+        return spectrum
+
     def add(self, spectrum):
         """ Adds a spectrum to current spectra object.
 
-- 
2.43.0


From b780a56245d6902b5e9cc77d90ef26c0a8d8df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 12/82] fix: shifts by a whole number of bins were not
 recognised

shift % step may end up just below step (0.3 % 0.1 is 0.09999999999999998),
in which case shift interpolated and shift_by_bin raised a ValueError.
---
 echidna/core/shift.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..3e23c59 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -22,6 +22,17 @@ class Shift(object):
         """
         return self._shift
 
+    def _is_multiple(self, shift, step):
+        """ Checks if shift is a multiple of step.
+
+        Returns:
+          bool: True if it is, allowing for floating point errors - the
+            remainder may be just above zero or just below step.
+        """
+        remainder = shift % step
+        return bool(numpy.isclose(remainder, 0.) or
+                    numpy.isclose(remainder, step))
+
     def set_shift(self, shift):
         """ Sets the shift factor.
 
@@ -44,7 +55,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if self._is_multiple(shift, step):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -181,7 +192,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not self._is_multiple(shift, step):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 289f298b45cd4d99c96d2429eaa42a596cdb3b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 13/82] fix: shifting all counts out of range filled the
 spectrum with NaN

The renormalisation divided by the number of counts left, zero if the
spectrum was empty or everything had been shifted out of range.
---
 echidna/core/shift.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 3e23c59..88c8144 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -172,10 +172,11 @@ class Shift(object):
                             "old_data1 * scale1 * (y / unshifted_sum1) +"
                             "old_data2 * scale2 * (y / unshifted_sum2)")
                 exec(fill_cmd)
-        # renormalise to prescale number of counts
-        shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
-        shifted_spec._num_decays = spectrum._num_decays
+        # renormalise to prescale number of counts, if there are any left
+        if shifted_spec.sum() > 0.:
+            shifted_spec._num_decays = shifted_spec.sum()
+            shifted_spec.scale(preshift_sum)
+            shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
     def shift_by_bin(self, spectrum, dimension):
-- 
2.43.0


From 47671f1f6fd4230e7f3c04e84b6340a55e744c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 14/82] fix: scaling all counts out of range filled the
 spectrum with NaN

As for shift: the renormalisation divided by zero counts.
---
 echidna/core/scale.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..e6642e0 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -164,8 +164,9 @@ class Scale(object):
                             "scale1 * (y / unscaled_sum1) + old_data2 * "
                             "scale2 * (y / unscaled_sum2)")
                 exec(fill_cmd)
-        # renormalise to prescale number of counts
-        scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
-        scaled_spec._num_decays = spectrum._num_decays
+        # renormalise to prescale number of counts, if there are any left
+        if scaled_spec.sum() > 0.:
+            scaled_spec._num_decays = scaled_spec.sum()
+            scaled_spec.scale(prescale_sum)
+            scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
-- 
2.43.0


From 33e3d8e71f5349018b92959c221437fa991994bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 15/82] fix: weighted smearing never filled the last bin

The window of bins was cut off at the centre of the last bin, but the end
of numpy.arange is exclusive. Entries in the last bin with a window of one
bin were lost altogether.
---
 echidna/core/smear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..e45cd41 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,8 +260,7 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -508,8 +507,7 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -726,8 +724,7 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From 0a058cd844ee0b793c5984fca7d647fe35c712ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 16/82] fix: poisson smearing ignored the energy resolution

EnergySmearRes always used a light yield of 200 NHit/MeV (a resolution of
7.1%) for poisson smearing, whatever the resolution was set to. This is also
what a floated resolution parameter uses.
---
 echidna/core/smear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e45cd41..5757989 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -449,6 +449,9 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Equivalent light yield, used if poisson smearing:
+            # sigma = sqrt(energy / light_yield) = resolution * sqrt(energy)
+            self._light_yield = 1. / resolution ** 2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From 4e7d8228ae08df91ce14cfb6ed9aa28a8e48c446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:59 +0000
Subject: [PATCH 17/82] fix: IndexError for values just below the upper bound

fill accepts any value below the upper bound, but the difference to the
lower bound may be rounded up to the full range, which gives the bin behind
the last one.
---
 echidna/core/spectra.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 6834296..f42aea0 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -211,10 +211,12 @@ class Spectra(object):
                 raise ValueError("%s out of range: %s" % (v, kwargs[v]))
         bins = []
         for v in self._config.get_pars():
-            bins.append(int((kwargs[v] - self._config.get_par(v)._low) /
-                            (self._config.get_par(v)._high -
-                             self._config.get_par(v)._low) *
-                            self._config.get_par(v)._bins))
+            bin = int((kwargs[v] - self._config.get_par(v)._low) /
+                      (self._config.get_par(v)._high -
+                       self._config.get_par(v)._low) *
+                      self._config.get_par(v)._bins)
+            # The value is below the upper bound, but may be rounded up to it
+            bins.append(min(bin, self._config.get_par(v)._bins - 1))
         self._data[tuple(bins)] += weight
 
     def get_background_name(self):
-- 
2.43.0


From 904ccfab0b1ae1da33e57cf192566421441eefc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:44 +0000
Subject: [PATCH 18/82] fix: SpectraParameter.get_bin returned a bin which does
 not exist

For the upper bound itself, and for values just below it (due to rounding),
the index was equal to the number of bins.
---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index d2ad128..1ed7074 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1076,7 +1076,8 @@ class SpectraParameter(Parameter):
         if x > self._high:
             raise ValueError("%s is above parameter upper bound %s"
                              % (x, self._high))
-        return int((x - self._low) / self.get_width())
+        # The upper bound belongs to the last bin
+        return min(int((x - self._low) / self.get_width()), self._bins - 1)
 
     def get_bin_boundaries(self):
         """ Returns the bin boundaries for the parameter
-- 
2.43.0


From c0a8d11018bc2e4ebc7067f16f523de5e37ab28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:44 +0000
Subject: [PATCH 19/82] fix: adding a spectrum with its dimensions in another
 order

The dimensions of both spectra were matched by name, but the data was then
added by position: with the same number of bins in each dimension, energy
was added to radius.
---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index f42aea0..ebf4db0 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -118,12 +118,14 @@ class Spectra(object):
                 dim = spectrum.get_config().get_dim(v)
                 dim_type = spectrum._config.get_dim_type(dim)
                 types[dim] = dim_type
+        axes = []  # Axes of spectrum, in the order of this spectra
         for v in self._config.get_pars():
             dim = self._config.get_dim(v)
-            if dim in types:
+            if v not in spectrum.get_config().get_pars() and dim in types:
                 v_spec = dim+'_'+types[dim]
             else:
                 v_spec = v
+            axes.append(spectrum.get_config().get_index(v_spec))
             if not numpy.allclose(self.get_config().get_par(v)._high,
                                   spectrum.get_config().get_par(v_spec)._high):
                 raise ValueError("Upper %s bounds in spectra are not equal."
@@ -151,7 +153,7 @@ class Spectra(object):
                                     spectrum._name,
                                     spectrum.get_config().get_par(v_spec)
                                     ._bins))
-        self._data += spectrum._data
+        self._data += spectrum._data.transpose(axes)
         self._raw_events += spectrum._raw_events
         self._num_decays += spectrum._num_decays
 
-- 
2.43.0


From 1aaa56339b9b3c3c6957dc22d26b530907fd2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 20/82] fix: RadialSmear.random_smear raised a TypeError

It passed the content of a bin, a float, to range.
---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 5757989..4ecc1f5 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -781,7 +781,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From c92b803ae95e70bcf604c220727d8d16e4b7a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 21/82] fix: window of weighted smearing depended on rounding

Its end was the centre of the bin after the last one, so the rounding error
of numpy.arange decided whether that bin was included as well.
---
 echidna/core/smear.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 4ecc1f5..1f405b4 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -253,9 +253,9 @@ class EnergySmearLY(Smear):
                         low, high = self.get_bounds(mean, sigma)
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
+                        # Upper edge of the last bin: clear of rounding
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
@@ -503,9 +503,9 @@ class EnergySmearRes(Smear):
                         low, high = self.get_bounds(mean, sigma)
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
+                        # Upper edge of the last bin: clear of rounding
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
@@ -720,9 +720,9 @@ class RadialSmear(Smear):
                         low, high = self.get_bounds(mean, sigma)
                         low = spectrum.get_config().get_par(
                             par).round(low - 0.5 * widths[i]) + 0.5 * widths[i]
+                        # Upper edge of the last bin: clear of rounding
                         high = spectrum.get_config().get_par(
-                            par).round(high + 0.5 * widths[i]) + \
-                            0.5 * widths[i]
+                            par).round(high + 0.5 * widths[i])
                         if low < spectrum.get_config().get_par(par)._low:
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
-- 
2.43.0


From aa47d9a045239df7003745831c848323ba3978d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 22/82] fix: FitParameter.get_bin returned a neighbour in fine
 grids

numpy.isclose has an absolute tolerance of 1e-8: all values of e.g. a rate
below that were bin 0.
---
 echidna/core/parameter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 1ed7074..e6ea86d 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -311,11 +311,13 @@ class FitParameter(Parameter):
         Returns:
           int: Bin index.
         """
-        try:
-            return numpy.where(numpy.isclose(self.get_values(), value))[0][0]
-        except:
-            return int((value - self._low) / (self._high - self._low) *
-                       self._bins)
+        values = self.get_values()
+        # First of the values which are close could be a neighbour
+        closest = numpy.argmin(numpy.absolute(values - value))
+        if numpy.isclose(values[closest], value):
+            return closest
+        return int((value - self._low) / (self._high - self._low) *
+                   self._bins)
 
     def get_bin_boundaries(self):
         """ ***PENDING DEPRECATION***
-- 
2.43.0


From 166a4eb0e6a9f053e456ad5fb673d9fa3c7c0bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 23/82] fix: names of pre-convolved spectra lost zeros of the
 value

Zeros which are not decimals were stripped as well: 200 became 2 and 1e-10
became 1e-1.
---
 echidna/core/parameter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index e6ea86d..7f54cac 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -794,7 +794,8 @@ class ResolutionParameter(FitParameter):
             ext = 'rs'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -908,7 +909,8 @@ class ScaleParameter(FitParameter):
             directory += 'scale/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1022,7 +1024,8 @@ class ShiftParameter(FitParameter):
             directory += 'shift/'
         value_string = str(self._current_value)
         # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        if '.' in value_string and 'e' not in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From 00d4b14712c4fe3e3d9a7aa5d639e1f82e47c650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 24/82] fix: ValueError if a path contains a dimension in
 another name

With /data/energy_mc_runs/ energy_mc/ was not appended to the directory, and
get_pre_convolved then failed to find it.
---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..888aa25 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -609,7 +609,7 @@ class Fit(object):
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            if dim not in directory.split('/'):
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From aa038eff09bc73e56a584661d6a1f607db55e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 25/82] fix: GridSearch indexed its grids with floats

Which is an IndexError in numpy 1.12 and above.
---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..914fbdf 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From df7b70eb7408ea08a6759c1d9c89f86f97b48df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 26/82] fix: GridSearch without a name lost its default name

Minimiser.__init__ overwrote the name set by FitResults with None, so
reset_grids raised a TypeError.
---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 914fbdf..d43b408 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From f34a00d41d5a5efe4a5a5f8657432f28c4a475bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 27/82] fix: the shape of per bin results was never checked

The check was unreachable, after the raise of another one.
---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d43b408..185a7d4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From 992d2fccaa7b0ec2b248b8acff546dfc8244421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 28/82] fix: GridSearch found its minimum at a NaN

argmin returns the first NaN, whereas the minimum itself is located with
nanmin.
---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 185a7d4..f537868 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -345,7 +345,7 @@ class GridSearch(FitResults, Minimiser):
         if self._use_numpy:
             # Set best_fit values
             # This is probably not the most efficient way of doing this
-            position = numpy.argmin(minimum)
+            position = numpy.nanargmin(minimum)
             position = numpy.unravel_index(position, minimum.shape)
             minimum = numpy.nanmin(minimum)
         else:  # Use find_minimum method
@@ -631,7 +631,8 @@ class GridSearch(FitResults, Minimiser):
           (41, 2, 12), the location (4, 10, 15) would be returned
         """
         dims = len(array.shape)
-        minimum = copy.copy(array)
+        # NaNs are never the minimum
+        minimum = numpy.where(numpy.isnan(array), numpy.inf, array)
         coords = None
 
         # Loop over dimensions, working outwards
-- 
2.43.0


From 5f405d22df7859c0c56134091ea34211831b67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 29/82] fix: get_raw_stats failed if given parameter values

get_pars returns the names of the parameters, which have no get_bin.
---
 echidna/fit/minimise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index f537868..00209f7 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -193,7 +193,8 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    parameter = self._fit_config.get_par(par)
+                    idx = parameter.get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From 4fa69878fa35e1e7961f7adf5144296171b8a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 30/82] fix: get_raw_stats_at failed if the statistic is a
 single value

A float of numpy is not of type float and has no first dimension.
---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 00209f7..6fe573a 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -216,11 +216,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while numpy.ndim(stats) > 0 and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while numpy.ndim(stats) > 0 and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From dbb87ae8703b46d2b09082aeaf4d9368ac5832ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 31/82] fix: reset_grids added the spectral dimensions to any
 grid

They only belong to the grid if it is per bin. get_stats failed after a
reset of any other grid.
---
 echidna/fit/minimise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 6fe573a..835c5e9 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -471,8 +471,11 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        if self._per_bin:
+            stats_shape = (self._fit_config.get_shape() +
+                           self._spectra_config.get_shape())
+        else:
+            stats_shape = self._fit_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From 47728058c0d941ea44050314d9f6dc5aff0a37b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 32/82] fix: projecting test statistics never worked

itertools was not imported, parameters (a tuple) was looked up in the names
of the fit parameters, and the raw statistics were summed over the spectral
dimensions before projecting onto them.
---
 echidna/fit/minimise.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 835c5e9..7fecab4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -6,6 +6,7 @@ from echidna.fit.fit_results import FitResults
 
 import copy
 import abc
+import itertools
 
 
 class Minimiser(object):
@@ -395,19 +396,17 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
-            # Can apply penalty term contributions
+        if set(parameters).issubset(self._fit_config.get_pars()):
+            # Can apply penalty term contributions, the indices select a
+            # single value along each fit parameter dimension
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -437,15 +436,16 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        counter = 0
+        if set(parameters).issubset(self._fit_config.get_pars()):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
+            for axis, parameter in enumerate(self._fit_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
+            projection = copy.copy(self._stats)
             for axis, parameter in enumerate(
                     itertools.chain(self._fit_config.get_pars(),
                                     self._spectra_config.get_pars())):
-- 
2.43.0


From 5073300f9bd2bb47eb034eecf7ad90478c654cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 33/82] fix: only the last global parameter was applied to the
 signal

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 888aa25..df8e5cf 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -539,8 +539,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 81fb0b41e1f3cc82c3d82acf75a73f71d482c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:09 +0000
Subject: [PATCH 34/82] fix: each evaluation of a fit changed the spectra of
 the next

---
 echidna/fit/fit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index df8e5cf..ebd7adb 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -509,6 +509,10 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
+            # Work on a copy, the original (or cached) spectrum is needed
+            # again for the next values of the parameters
+            spectrum = copy.copy(spectrum)
+
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
@@ -546,6 +550,7 @@ class Fit(object):
                     self._global_dict[background_name][cur_val] = signal
                 else:
                     signal = self._global_dict[background_name][cur_val]
+                signal = copy.copy(signal)  # keep the cached spectrum as it is
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
-- 
2.43.0


From 4933019b71655fa4bf06b1ffab4735e55f858177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 35/82] fix: a fit mixed up convolved spectra of equal
 background names

---
 echidna/fit/fit.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ebd7adb..d77ca5b 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -116,8 +116,6 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
@@ -494,10 +492,8 @@ class Fit(object):
                                            self._floating_pars):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                convolved = self._global_dict.setdefault(spectrum, {})
+                if cur_val not in convolved:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -505,9 +501,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    convolved[cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = convolved[cur_val]
 
             # Work on a copy, the original (or cached) spectrum is needed
             # again for the next values of the parameters
@@ -534,10 +530,8 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                convolved = self._global_dict.setdefault(self._signal, {})
+                if cur_val not in convolved:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -547,9 +541,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    convolved[cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = convolved[cur_val]
                 signal = copy.copy(signal)  # keep the cached spectrum as it is
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
@@ -809,6 +803,7 @@ class Fit(object):
         self._roi = roi
         self._logger.debug("Set _roi as %s" % str(roi))
         self._checked = False  # Must redo checks for a new roi
+        self._global_dict = {}  # and convolve the shrunk spectra again
 
     def set_signal(self, signal, shrink=True):
         """ Sets the signal you want to fit.
-- 
2.43.0


From eeb589bad6e355e8d67d56acab2b09e4ef2ba923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 36/82] fix: AttributeError for a roi without a low and a high
 value

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index d77ca5b..140e7a0 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -305,7 +305,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
-- 
2.43.0


From c634fcb968ae229c2b27bc67cb16ea49e622fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 37/82] fix: set_pre_made_dir had no effect

---
 echidna/fit/fit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 140e7a0..8a82d1e 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -72,7 +72,7 @@ class Fit(object):
       _checked (bool): If True then the fit class is ready to be used.
       _use_pre_made (bool): Flag whether to load a pre-made spectrum
         for each systematic value, or apply convolutions on the fly.
-      _pre_made_dir (string): Directory in which pre-made convolved
+      _pre_made_base_dir (string): Directory in which pre-made convolved
         spectra are stored.
     """
     def __init__(self, roi, test_statistic, fit_config=None, data=None,
@@ -834,7 +834,7 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From 002f218664974cfc1a5ae9434b8cbe318edaaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 38/82] fix: pre-made spectra were looked for in wrong
 directories

---
 echidna/fit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 8a82d1e..cbf0c33 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -603,7 +603,9 @@ class Fit(object):
         if self._pre_made_base_dir:
             directory = self._pre_made_base_dir
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.dirname(spectrum._location)
+        if directory and directory[-1] != '/':
+            directory += '/'
 
         # Add current value of each global parameter
         for par in global_pars:
-- 
2.43.0


From 9c36efbf27867b6f4bf1f0747fd767d67b8f6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 39/82] fix: per bin fits failed for backgrounds with more bins
 than the data

---
 echidna/fit/fit.py | 29 +++++++----------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index cbf0c33..eb3c918 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -757,28 +757,13 @@ class Fit(object):
             self._logger.debug("Setting %s as minimiser" %
                                minimiser.get_name())
         else:  # Use default GridSearch
-            if self._per_bin:
-                if self._floating_backgrounds:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._floating_backgrounds[0].
-                        get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-                else:
-                    self._minimiser = GridSearch(
-                        fit_config=self._fit_config,
-                        spectra_config=self._data.get_config(),
-                        name=self._fit_config.get_name(),
-                        # This assumes fitting over all dimensions
-                        per_bin=self._per_bin)
-            else:
-                self._minimiser = GridSearch(
-                    fit_config=self._fit_config,
-                    spectra_config=self._data.get_config(),
-                    name=self._fit_config.get_name(),
-                    per_bin=self._per_bin)
+            self._minimiser = GridSearch(
+                fit_config=self._fit_config,
+                # The test statistic per bin has the binning of the data.
+                # This assumes fitting over all dimensions
+                spectra_config=self._data.get_config(),
+                name=self._fit_config.get_name(),
+                per_bin=self._per_bin)
             self._logger.debug("Created GridSearch (%s) to use as minimiser" %
                                self._minimiser.get_name())
 
-- 
2.43.0


From 309492a0b745b872baeaaa7550ce02a004ab0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 40/82] fix: get_limit failed for fit parameters without a
 sigma

---
 echidna/limit/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..3b06048 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,7 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
+                log_text += ("Sigma: %s\n" %
                              cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
@@ -263,7 +263,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From 4009bae9c18955491259d255c6489028d0e03a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 41/82] fix: summary of a limit reported the values of another
 signal scale

---
 echidna/limit/limit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 3b06048..8e22863 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -190,8 +190,8 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            limit = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
             log_text += "Signal Decays: %.4g\n" % limit
             for parameter in self._fitter.get_fit_config().get_pars():
@@ -252,10 +252,10 @@ class Limit(object):
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(stats[min_bin:])
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += ("Signal Decays (at max stat): %.4g\n" %
+                         par.get_values()[i_limit])
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
-- 
2.43.0


From b5e1a54889dce925450f5b2b63275cc5c1dc7302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 42/82] fix: limits with statistics per bin started at a wrong
 signal scale

---
 echidna/fit/fit_results.py | 2 +-
 echidna/limit/limit.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..1abf680 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 8e22863..d9f48a9 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -182,7 +182,7 @@ class Limit(object):
         stats -= min_stat
 
         # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
+        min_bin = numpy.argmin(self.sum_entries(stats))
 
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
-- 
2.43.0


From 6eea93f81aa7f3eebf72fa48ddf8bac4f28b9755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 43/82] fix: get_limit ignored a min_stat of zero, and failed
 if it was an array

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index d9f48a9..7e7ef90 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From a43a1e78d7f55bed4001968f61930a05d52d346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 44/82] fix: get_limit_stat raised an AttributeError

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 1abf680..4090036 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From e68fdf83dfcd802ca85508709e83d21a2cb2d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 45/82] fix: get_limit could not store the spectra, nor results
 without a limit

---
 echidna/limit/limit.py  | 103 ++++++++++++++++++----------------------
 echidna/output/store.py |  11 +++--
 2 files changed, 52 insertions(+), 62 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 7e7ef90..d9e54d5 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -212,41 +212,7 @@ class Limit(object):
             log_text += "N.D.F.: 1\n"  # Only fit one dof currently
             logging.getLogger("extra").info("\n%s\n" % log_text)
 
-            if store_limit:
-                if limit_fname:
-                    if limit_fname[-5:] != '.hdf5':
-                        limit_fname += '.hdf5'
-                else:
-                    timestamp = datetime.datetime.now().strftime(
-                        "%Y-%m-%d_%H-%M-%S")
-                    path = output.__default_save_path__ + "/"
-                    fname = (self._limit_results.get_name() + "_" + timestamp +
-                             ".hdf5")
-                    limit_fname = path + fname
-                store.dump_limit_results(limit_fname, self._limit_results)
-                self._logger.info("Saved summary of %s to file %s" %
-                                  (self._limit_results.get_name(),
-                                   limit_fname))
-            if store_spectra:
-                path = output.__default_save_path__ + "/"
-                fname = self._fitter.get_data()._name + "_data.hdf5"
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    fname = (self._fitter.get_fixed_background()._name +
-                             "_fixed.hdf5")
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        fname = background._name + "_float.hdf5"
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                fname = self._signal._name + "_signal.hdf5"
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
-
+            self._store(store_limit, store_spectra, limit_fname)
             return limit
 
         except IndexError as detail:
@@ -272,29 +238,7 @@ class Limit(object):
             log_text += "N.D.F.: 1\n"  # Only fit one dof currently
             logging.getLogger("extra").info("\n%s" % log_text)
 
-            if store_limit:
-                timestamp = datetime.datetime.now().strftime(
-                    "%Y-%m-%d_%H-%M-%S")
-                path = output.__default_save_path__ + "/"
-                fname = (self._limit_results.get_name() + "_" + timestamp +
-                         ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
-                self._logger.info("Saved summary of %s to file %s" %
-                                  (self._limit_results.get_name(),
-                                   path + fname))
-            if store_spectra:
-                store.dump(path + fname, self._fitter.get_data(),
-                           append=True, group_name="data")
-                if self._fitter.get_fixed_background():
-                    store.dump(path + fname,
-                               self._fitter.get_fixed_background(),
-                               append=True, group_name="fixed")
-                if self._fitter.get_floating_backgrounds():
-                    for background in self._fitter.get_floating_backgrounds():
-                        store.dump(path + fname, background, append=True,
-                                   group_name=background.get_name())
-                store.dump(path + fname, self._signal, append=True,
-                           group_name="signal")
+            self._store(store_limit, store_spectra, limit_fname)
             self._logger.error("Recieived: IndexError: %s" % detail)
             raise LimitError("Unable to find limit. Max stat: %s, Limit: %s"
                              % (stats.max(), limit))
@@ -316,6 +260,49 @@ class Limit(object):
             stats.append(self._fitter.fit())
         return numpy.array(stats)
 
+    def _store(self, store_limit, store_spectra, limit_fname=None):
+        """ Saves the limit results and the spectra used for fitting.
+
+        Args:
+          store_limit (bool):  If True then the limit results are saved.
+          store_spectra (bool): If True then the spectra used for fitting
+            are saved.
+          limit_fname (string, optional): Filename to save the limit
+            results to.
+        """
+        path = output.__default_save_path__ + "/"
+        if store_limit:
+            if limit_fname:
+                if limit_fname[-5:] != '.hdf5':
+                    limit_fname += '.hdf5'
+            else:
+                timestamp = datetime.datetime.now().strftime(
+                    "%Y-%m-%d_%H-%M-%S")
+                fname = (self._limit_results.get_name() + "_" + timestamp +
+                         ".hdf5")
+                limit_fname = path + fname
+            store.dump_limit_results(limit_fname, self._limit_results)
+            self._logger.info("Saved summary of %s to file %s" %
+                              (self._limit_results.get_name(), limit_fname))
+        if store_spectra:
+            fname = self._fitter.get_data()._name + "_data.hdf5"
+            store.dump(path + fname, self._fitter.get_data(), append=True,
+                       overwrite=True, group_name="data")
+            if self._fitter.get_fixed_background():
+                fname = (self._fitter.get_fixed_background()._name +
+                         "_fixed.hdf5")
+                store.dump(path + fname, self._fitter.get_fixed_background(),
+                           append=True, overwrite=True, group_name="fixed")
+            if self._fitter.get_floating_backgrounds():
+                for background in self._fitter.get_floating_backgrounds():
+                    fname = background._name + "_float.hdf5"
+                    store.dump(path + fname, background, append=True,
+                               overwrite=True,
+                               group_name=background.get_name())
+            fname = self._signal._name + "_signal.hdf5"
+            store.dump(path + fname, self._signal, append=True,
+                       overwrite=True, group_name="signal")
+
     def sum_entries(self, array):
         """ Sums entries of an array which contains arrays as entries.
 
diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..1adcc84 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -78,14 +78,16 @@ def string_to_dict(in_string):
     return out_dict
 
 
-def dump(file_path, spectrum, append=False, overwrite=False):
+def dump(file_path, spectrum, append=False, overwrite=False,
+         group_name="spectrum"):
     """ Dump the spectrum to the file_path.
 
     Args:
       file_path (string): Location to save to.
       spectrum (:class:`spectra.Spectra`): The spectrum to save
+      group_name (string, optional): Name of the group in the file, in
+        which to save the spectrum.
     """
-    group_name = "spectrum"
     if append:
         file_opt = "a"
     else:
@@ -242,16 +244,17 @@ def dump_limit_results(file_path, limit_results, append=False):
                  (limit_results.get_name(), file_path))
 
 
-def load(file_path):
+def load(file_path, group_name="spectrum"):
     """ Load a spectrum from file_path.
 
     Args:
       file_path (string): Location to save to.
+      group_name (string, optional): Name of the group in the file, from
+        which to load the spectrum.
 
     Returns:
       Loaded spectrum (:class:`spectra.Spectra`).
     """
-    group_name = "spectrum"
     try:
         with h5py.File(file_path, "r") as file_:
             group = file_[group_name]
-- 
2.43.0


From 154be5e39ac82739a6f0a9cde7f1c4063dd016b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:00 +0000
Subject: [PATCH 46/82] fix: storing fits failed for limits without floating
 backgrounds

---
 echidna/limit/limit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index d9e54d5..7b167c6 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -175,7 +175,8 @@ class Limit(object):
                                                      par_name)
                     self._limit_results.set_penalty_term(
                         i, value.get("penalty_term"), par_name)
-                if store_fits:
+                # The minimiser is not used without floating backgrounds
+                if store_fits and self._fitter.get_floating_backgrounds():
                     self._limit_results.set_fit_result(i, fit_results)
 
         # Convert stats to delta - subtracting minimum
-- 
2.43.0


From 473b8ea311e0a330f8b3c19cfb4cd1ed27adc237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 47/82] fix: fits loaded with limit results lost that they are
 per bin

---
 echidna/output/store.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 1adcc84..0b67217 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -475,10 +475,13 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
+                    fit_stats = sub_group["stats"].value
+                    per_bin = fit_stats.shape != fit_config.get_shape()
                     fit_results = GridSearch(fit_config=fit_config,
                                              spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                                             name=fit_config_name,
+                                             per_bin=per_bin)
+                    fit_results._stats = fit_stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
-- 
2.43.0


From eb36f670d33547bcbce4e8e0d157ec0735af9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 48/82] fix: load_from_file did not use the name of the file
 for a blank name

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..8439255 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 6ba9b6430b43dc9d0c421b0a5be958e66140e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 49/82] fix: dump_to_file wrote global and spectral parameters
 to one file

The documentation promises the config's name with _global and _spectral.
---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 8439255..11059bc 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -333,7 +333,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         with open(path+global_fname, "w") as stream:
@@ -343,7 +343,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
@@ -577,7 +577,7 @@ class SpectraFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
-- 
2.43.0


From 73ce46ec6c41b8baa2ef7eaceca9a955c7f28e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 50/82] fix: a loaded GlobalFitConfig was named after its last
 parameter

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 11059bc..b93c561 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From 07966bb20e2a3e8776fd6f76ca201a9082f5c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 51/82] fix: a GlobalFitConfig without spectral parameters
 could not be loaded

Also fit results without them, as dumped by dump_fit_results.
---
 echidna/core/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index b93c561..20b3aa7 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -467,7 +467,7 @@ class GlobalFitConfig(Config):
 
         # Add spectral fit parameters:
         main_key = "spectral_fit_parameters"
-        if not spectral_config.get(main_key):
+        if main_key not in spectral_config.keys():
             logging.getLogger("extra").debug("\n\n%s\n" % str(spectral_config))
             raise KeyError("Cannot read spectra fit config dictionary. "
                            "Please check it has the correct form")
-- 
2.43.0


From b55f41b0b9cd97c8d4e9683d7bd4c853ad1cf97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 52/82] fix: get_type of a config returned its name

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 20b3aa7..f869bcf 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -148,9 +148,9 @@ class Config(object):
         """
         Returns:
           string: Type of :class:`Config` class instance - stored in
-            :attr:`_name`.
+            :attr:`_type`.
         """
-        return self._name
+        return self._type
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From 8306cca84524cb2e946c39559bfd0e5919ce0e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 53/82] fix: GlobalFitConfig.dump removed the dimension from
 within names

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index f869bcf..97deade 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -290,8 +290,8 @@ class GlobalFitConfig(Config):
 
             name = par.get_name()
             # Remove dimension from name, if required
-            if dimension in name:
-                name = name.replace(dimension+"_", "")
+            if name.startswith(dimension+"_"):
+                name = name[len(dimension)+1:]
 
             # Get parameter dict from par
             global_fit_config[main_key][dimension][name] = par.to_dict(basic)
-- 
2.43.0


From 979650b90b2eabc34687cadc5b404c1a4b781b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 54/82] fix: configs could not be written to YAML after a fit

The best fits are numpy floats, which yaml.SafeDumper cannot represent.
---
 echidna/util/yaml_loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/util/yaml_loader.py b/echidna/util/yaml_loader.py
index 42ca6b7..028b23e 100644
--- a/echidna/util/yaml_loader.py
+++ b/echidna/util/yaml_loader.py
@@ -1,3 +1,4 @@
+import numpy
 import yaml
 from collections import OrderedDict
 
@@ -44,6 +45,10 @@ def ordered_dump(data, stream=None, **kwargs):
             yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG,
             data.items())
 
+    def _float_representer(dumper, data):
+        return dumper.represent_float(float(data))
+
     OrderedDumper.add_representer(OrderedDict, _dict_representer)
+    OrderedDumper.add_representer(numpy.float64, _float_representer)
 
     yaml.dump(data, stream, OrderedDumper, **kwargs)
-- 
2.43.0


From 178a2905c3a02aee4021abb32876ce415c72a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 55/82] fix: loaded fit and limit results mixed up parameters

The dumped config groups global parameters by dimension, but the arrays
keep the order of the fit: store it, and restore it when loading.
---
 echidna/output/store.py | 48 +++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 0b67217..39f7e60 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -172,6 +172,8 @@ def dump_fit_results(file_path, fit_results, append=False):
             fit_results._spectra_config.get_name())
         group.attrs["fit_config"] = json.dumps(
             fit_results._fit_config.dump())
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(fit_results._fit_config.get_pars()))
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
@@ -207,6 +209,8 @@ def dump_limit_results(file_path, limit_results, append=False):
             limit_results._spectra_config.get_name())
         group.attrs["fit_config"] = json.dumps(
             limit_results._fit_config.dump())
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(limit_results._fit_config.get_pars()))
         group.attrs["fit_config_name"] = limit_results._fit_config.get_name()
         group.attrs["limit_config"] = json.dumps(
             limit_results._limit_config.dump())
@@ -371,6 +375,30 @@ def load_ndarray(file_path, ndarray_object):
     return ndarray_object
 
 
+def _load_fit_config(group):
+    """ Load the :class:`GlobalFitConfig` of stored results.
+
+    Args:
+      group (:class:`h5py.Group`): Group the results are stored in.
+
+    Returns:
+      :class:`GlobalFitConfig`: The config, with its parameters in the
+        order they had when dumped: this is the order of the dimensions
+        of the stored arrays.
+    """
+    global_config, spectral_config = json.loads(
+        group.attrs["fit_config"], object_pairs_hook=OrderedDict)
+    fit_config = GlobalFitConfig.load(global_config,
+                                      spectral_config=spectral_config,
+                                      name=group.attrs["fit_config_name"])
+    if "fit_config_pars" in group.attrs:
+        parameters = fit_config._parameters
+        fit_config._parameters = OrderedDict(
+            (par, parameters[par])
+            for par in json.loads(group.attrs["fit_config_pars"]))
+    return fit_config
+
+
 def load_fit_results(file_path):
     """ Load a :class:`FitResults` object from file.
 
@@ -394,13 +422,7 @@ def load_fit_results(file_path):
             json.loads(group.attrs["spectra_config"],
                        object_pairs_hook=OrderedDict),
             name=spectra_config_name)
-        fit_config_name = group.attrs["fit_config_name"]
-        fit_config = GlobalFitConfig.load(
-            json.loads(group.attrs["fit_config"],
-                       object_pairs_hook=OrderedDict)[0],
-            spectral_config=json.loads(group.attrs["fit_config"],
-                                       object_pairs_hook=OrderedDict)[1],
-            name=fit_config_name)
+        fit_config = _load_fit_config(group)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
@@ -441,17 +463,7 @@ def load_limit_results(file_path):
                        object_pairs_hook=OrderedDict),
             name=spectra_config_name)
         fit_config_name = group.attrs["fit_config_name"]
-        global_config = json.loads(group.attrs["fit_config"],
-                                   object_pairs_hook=OrderedDict)[0]
-        spectral_config = json.loads(group.attrs["fit_config"],
-                                     object_pairs_hook=OrderedDict)[1]
-        if spectral_config["spectral_fit_parameters"]:
-            fit_config = GlobalFitConfig.load(global_config,
-                                              spectral_config=spectral_config,
-                                              name=fit_config_name)
-        else:
-            fit_config = GlobalFitConfig.load(global_config,
-                                              name=fit_config_name)
+        fit_config = _load_fit_config(group)
         limit_config = json.loads(group.attrs["limit_config"],
                                   object_pairs_hook=OrderedDict)
         limit_config_name = group.attrs["limit_config_name"]
-- 
2.43.0


From b00f37a61dc15171c4da0f784792ef5ba261d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 56/82] fix: loaded fits of a limit had the penalty terms of
 the last scale

Loading them also changed the best fits of the results' own fit config.
---
 echidna/output/store.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 39f7e60..e8d1d85 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -489,7 +489,8 @@ def load_limit_results(file_path):
                 if sub_group.attrs["exists"] == 1.:
                     fit_stats = sub_group["stats"].value
                     per_bin = fit_stats.shape != fit_config.get_shape()
-                    fit_results = GridSearch(fit_config=fit_config,
+                    fit_results = GridSearch(fit_config=copy.deepcopy(
+                                                 fit_config),
                                              spectra_config=spectra_config,
                                              name=fit_config_name,
                                              per_bin=per_bin)
@@ -500,6 +501,8 @@ def load_limit_results(file_path):
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
+                        p.set_penalty_term(
+                            limit_results.get_penalty_term(i, par))
                     limit_results._fit_results[i] = copy.deepcopy(fit_results)
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From d3f2fefc3250963a61ed66ac2c8681a0edbdd76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 57/82] fix: zero arguments of DBIsotope were replaced by the
 defaults

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From cb375e142c288c29b6671a42db0486782c80e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 58/82] fix: counts_to_activity rounded down for integers

---
 echidna/calc/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 4814f49..2d5b734 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -243,7 +243,7 @@ class DBIsotope(object):
         """
         if livetime <= 0.:
             raise ValueError("Livetime should be positive and non zero")
-        return counts/livetime
+        return counts/float(livetime)
 
     def counts_to_eff_mass(self, counts, n_atoms=None, livetime=5.):
         """ Converts from signal counts to effective majorana mass.
-- 
2.43.0


From 8bf70dfd6136287a073a16baa9e21f48910b1d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 59/82] fix: events without reconstruction or particles were
 extracted

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From ba2195eebdea938877a220174acbd4aff25262a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 60/82] fix: radial3 and zradial3 extractors checked the energy
 fit

---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..ec3e947 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1023,8 +1023,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1314,8 +1314,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 2fe68db5d9c8f0c57f46a84b07464d957aa817d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 61/82] fix: zradial3 extractors could not be created

---
 echidna/core/dsextract.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index ec3e947..06a8db9 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1084,6 +1084,8 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float): The fixed radius used in calculating
@@ -1092,14 +1094,18 @@ class ZRadial3ExtractMC(Extractor):
       reconstructed position. If False then MC position is used for cuts.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, external=False,
+                 reco_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1237,6 +1243,8 @@ class ZRadial3ExtractReco(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
       mc_pos (bool, optional): If true then  MC position is used for cuts.
         If False (default) then position cuts will be made on reconstructed
         position.
@@ -1248,14 +1256,19 @@ class ZRadial3ExtractReco(Extractor):
         If False then position cuts will be made on reconstructed position.
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, external=False, outer_radius=None,
+                 mc_pos=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
-- 
2.43.0


From 9e23dc8da0771cdc411df6b58d8fd46e7647eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:19 +0000
Subject: [PATCH 62/82] fix: zradial3_reco failed for root files and had no
 sign

---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 06a8db9..108f0b8 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1345,9 +1345,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From b83f53965d4e120e674cbfb89551103540853d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 63/82] fix: last event of an ntuple was lost with the bipo cut

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..560ff3b 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # There is nothing after the last event to veto it
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From 5657a8032bed0265eb3ec182a73c6af0aa01d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 64/82] fix: get_array_errors flattened the errors

---
 echidna/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..42b973e 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -66,8 +66,7 @@ def get_array_errors(array, lin_err=0.01, frac_err=None,
             error = numpy.power(10., error)
         errors[index] = error
     errors = errors - array
-    errors.reshape(shape)
-    return errors
+    return errors.reshape(shape)
 
 
 class DispatchingFormatter:
-- 
2.43.0


From 774cfe81f65f7295785cf2ee962cc2b80cfe9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 65/82] fix: dump_scaled wrote to / for files in the current
 directory

---
 echidna/scripts/dump_scaled.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..2d99d59 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,9 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.dirname(args.file)  # strip filename
+        if directory:
+            directory += "/"
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
-- 
2.43.0


From 289799b8e062f14a4459ef10013eb6623c03abdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 66/82] fix: dump_shrink wrote to / for files in the current
 directory

---
 echidna/scripts/dump_shrink.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..3cdfb01 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -74,8 +74,10 @@ def main(args):
     f_out = args.output
     if not f_out:
         directory = os.path.dirname(args.input)
+        if directory:
+            directory += "/"
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = directory + filename + "_shrunk.hdf5"
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From 465ad33d0cc2814e6f1bed196a918a380fe24132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 67/82] fix: dump_spectra_root could not plot, and so not dump

---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..6b5a0a4 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 40a2a4e409838873195b18f3948fc62bb695c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 68/82] fix: lists of files could not be read by the
 dump_spectra scripts

---
 echidna/scripts/dump_spectra_ntuple.py | 9 +++++----
 echidna/scripts/dump_spectra_root.py   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..25aaa2f 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -88,8 +88,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # path is in the first column
+                file_paths.append(row[0])
     return file_paths
 
 
@@ -116,8 +117,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index 6b5a0a4..ecf8c63 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -83,8 +83,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:  # path is in the first column
+                file_paths.append(row[0])
     return file_paths
 
 
-- 
2.43.0


From dfe13c84f2456b57bdf3bdacbf4907319a30e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 69/82] fix: multi_ntuple_spectrum needed a slash at the end of
 paths

---
 echidna/scripts/multi_ntuple_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..31d34bf 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -75,7 +75,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump("%s/%s.hdf5" % (save_path, bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
@@ -121,7 +121,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(os.path.normpath(data_path))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From 158d2c0bb87c3f6569fbd3909c27c10f7617f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 70/82] fix: plots failed if rounding gave the axis an extra
 bin

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..390b52d 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -20,7 +20,7 @@ def _produce_axis(spectra, dimension):
     """
     par = spectra.get_config().get_par(dimension)
     width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    return par._low + (numpy.arange(par._bins) + 0.5)*width
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From 3c6c169f6cf39c38d4056563ee20c6eb938ca090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 71/82] fix: spectral_plot compared the type of spectra by
 identity

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index 390b52d..c50609e 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -180,7 +180,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
-- 
2.43.0


From a82103548519b3a20c468e838211c993a2b6ad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 72/82] fix: plot_surface swapped the axes of dimensions in
 reverse order

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..03092da 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if spectra.get_config().get_index(dimension1) > \
+            spectra.get_config().get_index(dimension2):
+        data = data.transpose()
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From 197b32d344b021b993c727fd3431a92e035b1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 73/82] fix: plot_per_bin swapped the axes

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 03092da..a15bedf 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -474,7 +474,7 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From 54d77b99fb9479d2b9e7355eb25fed9a43679141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 74/82] fix: plot_sigma_best_fit_vs_scale changed the best fits
 it plotted

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index a15bedf..1e6400f 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -428,8 +428,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From e522c370ee824f1b2e66035ddea41e84217842c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:34 +0000
Subject: [PATCH 75/82] fix: spectral_plot could not draw with ROOT

---
 echidna/output/plot_root.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 1e6400f..65501b9 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -135,30 +135,29 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            par = spectra.get_config().get_par(dimension+"_"+dim_type)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy lower limit")
@@ -168,11 +167,12 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dimension+"_"+dim_type,
+                                   graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
@@ -183,9 +183,11 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension+"_"+dim_type, graphical=False)
         hist.SetLineColor(ROOT.kGray)
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
+        hist.Draw("same")
     leg.Draw("same")
     return can
 
-- 
2.43.0


From d0a7dc089de23bcede793550b7d5bfdcf1063887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:54 +0000
Subject: [PATCH 76/82] fix: start_logging wrote beside log_save_path without a
 trailing slash

---
 echidna/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index 42b973e..b27685d 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -163,7 +163,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
     logging.basicConfig(
         level=logging.DEBUG,  # Include all logging levels in file
         format=FORMAT,
-        filename=path+filename,
+        filename=os.path.join(path, filename),
         filemode='w')
 
     # Define Handler which writes INFO messages or higher to the sys.stdout
@@ -201,7 +201,7 @@ def start_logging(capture_warnings=True, short_name=False, script_name=True):
 
     # Start logging
     logging.info("echidna-v%s" % echidna.__version__)
-    logging.info("Saving logfile to %s" % path + filename)
+    logging.info("Saving logfile to %s" % os.path.join(path, filename))
     logging.info("Starting script: %s.py" % current_module)
     logging.getLogger("extra").info("Use the 'extra' logger at any time "
                                     "to add extra information.")
-- 
2.43.0


From 1dd94952d68b03b1e90c30f2753bc0153ff6e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 77/82] fix: shrinking to a range without bins corrupted the
 spectrum

---
 echidna/core/spectra.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index ebf4db0..bbe7ab4 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -472,6 +472,7 @@ class Spectra(object):
             bound.
           ValueError: [parameter]_high value is lower than the parameters
             higher bound.
+          ValueError: No bin of a parameter is left.
           IndexError: Suffix to [parameter] is not _high or _low.
         """
         # First check dimensions and bounds in kwargs are valid
@@ -501,6 +502,7 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_pars = []
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -550,6 +552,11 @@ class Spectra(object):
             slices_high.append(high_bin)
             slices_low.append(low_bin)
             new_bins = high_bin - low_bin
+            if new_bins < 1:
+                raise ValueError("No bins of %s between %s and %s" %
+                                 (par_name, kwargs[kw_low], kwargs[kw_high]))
+            new_pars.append((par, new_low, new_high, new_bins))
+        for par, new_low, new_high, new_bins in new_pars:
             par.set_par(low=new_low, high=new_high, bins=new_bins)
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
-- 
2.43.0


From 2d05de79871188b5ae022031494b14b0dba61aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 78/82] fix: rebinning to a negative or fractional number left
 a wrong binning

---
 echidna/core/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index bbe7ab4..a3801d1 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -383,7 +383,8 @@ class Spectra(object):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
         for i, v in enumerate(self._config.get_pars()):
-            if self._config.get_par(v)._bins % new_bins[i] != 0:
+            if new_bins[i] < 1 or new_bins[i] != int(new_bins[i]) or \
+                    self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
-- 
2.43.0


From 962ab7b33b4e9f4ba82e85e6a8ce8d6cad32d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 79/82] fix: plot_surface left out the last bins of both
 dimensions

---
 echidna/output/plot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index c50609e..f6f5a6a 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -252,12 +252,14 @@ def plot_surface(spectra, dimension1, dimension2,
     axis = fig.add_subplot(111)
     index1 = spectra.get_config().get_index(dimension1)
     index2 = spectra.get_config().get_index(dimension2)
+    # Corners of the bins: with bin centres the last row and column of bins
+    # are not drawn
     if index1 < index2:
-        x = _produce_axis(spectra, dimension2)
-        y = _produce_axis(spectra, dimension1)
+        x = _produce_bins(spectra, dimension2)
+        y = _produce_bins(spectra, dimension1)
     else:
-        x = _produce_axis(spectra, dimension1)
-        y = _produce_axis(spectra, dimension2)
+        x = _produce_bins(spectra, dimension1)
+        y = _produce_bins(spectra, dimension2)
     data = spectra.surface(dimension1, dimension2)
     par1 = spectra.get_config().get_par(dimension1)
     par2 = spectra.get_config().get_par(dimension2)
-- 
2.43.0


From e39950a5d2631571dc3d293243842de8a6c0deba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 80/82] fix: cutting an empty spectrum failed after shrinking
 it

---
 echidna/core/spectra.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index a3801d1..7b58373 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -174,8 +174,13 @@ class Spectra(object):
           kwargs (float): Named parameters to slice on; note that these
             must be of the form [name]_low or [name]_high where [name]
             is a dimension present in the SpectraConfig.
+
+        Raises:
+          ValueError: The spectrum has no contents.
         """
         initial_count = self.sum()  # Store initial count
+        if initial_count == 0.:  # Check before anything is changed
+            raise ValueError("Cannot cut %s, it has no contents" % self._name)
         self.shrink(**kwargs)
         new_count = self.sum()
         reduction_factor = float(new_count) / float(initial_count)
@@ -577,8 +582,14 @@ class Spectra(object):
           lower_limit (float): Lower bound of ROI, along given axis.
           upper_limit (float): Upper bound of ROI, along given axis.
           dimension (str): Name of the dimension to shrink.
+
+        Raises:
+          ValueError: The spectrum has no contents.
         """
         integral_full = self.sum()  # Save integral of full spectrum
+        if integral_full == 0.:  # Check before anything is changed
+            raise ValueError("No efficiency of a ROI for %s, it has no "
+                             "contents" % self._name)
 
         # Shrink to ROI
         kw_low = dimension+"_low"
-- 
2.43.0


From 7ccb48f7833bc8acb9a02599dffcff40db63334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:07 +0000
Subject: [PATCH 81/82] fix: grid search left points of repeated parameter
 values unfilled

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 7fecab4..3dfe566 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -686,9 +686,10 @@ class GridSearch(FitResults, Minimiser):
         """
         if index < len(values):
             parameter = self._fit_config.get_par_by_index(index)
-            for value in parameter.get_values():
+            # Not by value, it might be repeated
+            for value_index, value in enumerate(parameter.get_values()):
                 values[index] = value
-                indices[index] = parameter.get_value_index(value)
+                indices[index] = value_index
                 for values, indices in self._get_values(index+1,
                                                         values, indices):
                     yield values, indices
-- 
2.43.0


From 041ae2cfc68df279a228dec29e725ce6f1cee228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:24 +0000
Subject: [PATCH 82/82] fix: shrinking to rounded outer bounds gave bins
 without contents

---
 echidna/core/spectra.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 7b58373..2fe2625 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -489,7 +489,10 @@ class Spectra(object):
                 raise IndexError("%s is not a parameter in the config" % par)
             if high_low == "low":
                 if numpy.allclose(kwargs[arg], self._config.get_par(par)._low):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = max(kwargs[arg],
+                                      self._config.get_par(par)._low)
+                    continue
                 if kwargs[arg] < self._config.get_par(par)._low:
                     raise ValueError("%s is below existing bound for %s (%s)"
                                      % (kwargs[arg], par,
@@ -497,7 +500,10 @@ class Spectra(object):
             elif high_low == "high":
                 if numpy.allclose(kwargs[arg],
                                   self._config.get_par(par)._high):
-                    continue  # To avoid floating point errors
+                    # To avoid floating point errors
+                    kwargs[arg] = min(kwargs[arg],
+                                      self._config.get_par(par)._high)
+                    continue
                 if kwargs[arg] > self._config.get_par(par)._high:
                     raise ValueError("%s is above existing bound for %s (%s)"
                                      % (kwargs[arg], par,
-- 
2.43.0

