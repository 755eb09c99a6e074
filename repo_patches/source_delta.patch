From 1e879c0458cf1bc107d580583e7ed5441f4d9981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:57 +0000
Subject: [PATCH 01/28] fix: read NIST values that are given without an
 uncertainty

The abundance of the only stable isotope of an element is listed as
'Isotopic Composition = 1', without an uncertainty in parentheses.
Such values were replaced by the default of 0, so that all
monoisotopic elements (Be, F, Na, Al, ..., Au, Bi, Th) had a mass of
zero and a vanishing nonresonant cross section per atom.
---
 ries/constituents/natural_element_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index cd1d01a..4fe2223 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -174,9 +174,11 @@ class NISTElementDataReader:
 
         - float, value
         """
-        return self.read_nist_element_property(
-            line[0 : line.find("(") + 1], prefix, float, default
-        )
+        # Exactly known values, for example the abundance of the only stable isotope of an element,
+        # are given without an uncertainty.
+        if "(" in line:
+            line = line[0 : line.find("(") + 1]
+        return self.read_nist_element_property(line, prefix, float, default)
 
     def read_nist_element_symbols(self):
         """Find all element symbols in the data file and organize them in a dictionary.
-- 
2.43.0


From 5697891d1663f314cbeacda40d9f43a75252ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:57 +0000
Subject: [PATCH 02/28] fix: match the complete element symbol when reading
 densities

A one-letter symbol was also found in the first two-letter symbol that
contains it, so that B, S and I got the densities of Be, Si and In.
---
 ries/constituents/natural_element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/constituents/natural_element_data.py b/ries/constituents/natural_element_data.py
index 4fe2223..669bfce 100644
--- a/ries/constituents/natural_element_data.py
+++ b/ries/constituents/natural_element_data.py
@@ -261,7 +261,7 @@ class Geant4DensityDataReader:
 
         with open(self.density_data_file_name, "r") as file:
             for line in file:
-                if X in line[0:2]:
+                if X == line[0:2].strip():
                     return self.density_conversion(float(line[2:]))
 
             return None
-- 
2.43.0


From a42c2835fa2bf2574dc52e891abe6d5c9a0376a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:57 +0000
Subject: [PATCH 03/28] fix: use the element symbols of manganese and vanadium
 as keys

The Debye temperatures of Mn and V were stored under 'Ma' and 'Va',
which are not element symbols.
---
 ries/resonance/debye_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/debye_model.py b/ries/resonance/debye_model.py
index f0bcd91..a15684e 100644
--- a/ries/resonance/debye_model.py
+++ b/ries/resonance/debye_model.py
@@ -132,7 +132,7 @@ room_temperature_T_D = {
     "Li": 448.0,
     "Lu": 116.0,
     "Mg": 330.0,
-    "Ma": 363.0,
+    "Mn": 363.0,
     "Hg": 92.0,
     "Mo": 377.0,
     "Nd": 148.0,
@@ -172,7 +172,7 @@ room_temperature_T_D = {
     "Ti": 380.0,
     "W": 312.0,
     "U": 300.0,
-    "Va": 390.0,
+    "V": 390.0,
     "Xe": None,
     "Yb": None,
     "Y": 214.0,
-- 
2.43.0


From 69bdccfb180c6da36b360d827ec3a7b89f028454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:57 +0000
Subject: [PATCH 04/28] fix: use the half width of the Cauchy part in the
 pseudo-Voigt profile

The scale parameter of scipy's Cauchy distribution is the half width
at half maximum, which is already stored in gamma_L. Dividing it by two
once more made the Lorentzian part too narrow by a factor of two.
---
 ries/resonance/pseudo_voigt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index b43ad74..db6c89b 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -166,7 +166,7 @@ class PseudoVoigtDistribution:
             """(1.0 - self.eta) * norm.{}(
             x, loc=self.resonance_energy, scale=self.gamma_G / np.sqrt(2.0)
         ) + self.eta * cauchy.{}(
-            x, loc=self.resonance_energy, scale=0.5 * self.gamma_L
+            x, loc=self.resonance_energy, scale=self.gamma_L
         )""".format(
                 method, method
             )
-- 
2.43.0


From 681acc4d979561d45282a912fbde23e888b7de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:36 +0000
Subject: [PATCH 05/28] fix: scale the tolerance of the pseudo-Voigt PPF with
 the width

scipy.optimize.newton stops at an absolute step size of 1.48e-8 by
default. For a narrow resonance, that is on the order of the width, so
that the iteration ended after a single step with a wrong energy and
without a warning.
---
 ries/resonance/pseudo_voigt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index db6c89b..f27c25e 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -231,6 +231,9 @@ class PseudoVoigtDistribution:
                 if isinstance(quantile, (float, int))
                 else self.resonance_energy * np.ones(len(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
+                # The default of `newton` is an absolute tolerance of about 1e-8 (MeV), which may
+                # be larger than the width of the distribution.
+                tol=min(1.48e-8, 1e-3 * self.Gamma),
                 full_output=True,
             )
             if isinstance(quantile, (int, float)):
-- 
2.43.0


From 85275ae2c07addabd9613087ee13f96170b84a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:52:36 +0000
Subject: [PATCH 06/28] fix: use the PPF approximation if only some quantiles
 do not converge

For an array of quantiles, scipy.optimize.newton only raises a
RuntimeError if none of them converges. If some did, the pseudo-Voigt
PPF returned None without a warning, and the creation of an
equidistant-probability grid failed with a TypeError.
---
 ries/resonance/pseudo_voigt.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index f27c25e..02be619 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -202,9 +202,8 @@ class PseudoVoigtDistribution:
         """PPF of the pseudo-Voigt distribution
 
         This function tries to invert the pseudo-Voigt CDF numerically first.
-        If the root-finding algorithm does not converge for any of the given quantiles, the
-        RuntimeError issued by the algorithm is caught and a fallback approximation is used which
-        is based on a linear combination of PPFs.
+        For all quantiles for which the root-finding algorithm does not converge, a fallback
+        approximation is used which is based on a linear combination of PPFs.
 
         Parameters:
 
@@ -243,11 +242,16 @@ class PseudoVoigtDistribution:
                 return newton_result[0]
 
         except RuntimeError:
-            warnings.warn(
-                "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
-                UserWarning,
-            )
-            return self.pseudo_voigt_expression(quantile, "ppf")
+            newton_result = None
+
+        warnings.warn(
+            "Calculation of pseudo-Voigt PPF by numerical inversion of the CDF failed for at least one value. Using approximation instead.",
+            UserWarning,
+        )
+        approximation = self.pseudo_voigt_expression(quantile, "ppf")
+        if newton_result is None or isinstance(quantile, (int, float)):
+            return approximation
+        return np.where(newton_result[1], newton_result[0], approximation)
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From 8967872d862467a932027f16abbea464bc21b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:36 +0000
Subject: [PATCH 07/28] fix: return zero instead of a negative limit of the
 coverage interval

The documentation and the warning state that a negative lower limit is
set to zero, but it was returned unchanged. The maximum coverage that
the warning mentions was calculated for the standard form of the
distribution instead of the one of the resonance.
---
 ries/resonance/resonance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index cf9ff52..d14e69e 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -295,10 +295,17 @@ class Resonance(CrossSection):
         if limits[0] < 0.0:
             warnings.warn(
                 "Unphysical negative lower limit of coverage interval encountered. Returning zero instead. The maximum coverage that can be reached with positive energies for this cross section is {:f} %.".format(
-                    100.0 * (1.0 - self.probability_distribution.cdf(0.0))
+                    100.0
+                    * (
+                        1.0
+                        - self.probability_distribution.cdf(
+                            0.0, *self.probability_distribution_parameters
+                        )
+                    )
                 ),
                 UserWarning,
             )
+            limits[0] = 0.0
         if np.isinf(limits[1]):
             warnings.warn(
                 "Infinite upper limit of coverage interval encountered.", UserWarning
-- 
2.43.0


From 7e7e2cbdd6056bcd0ea7a9828b6ecd9575dcbf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:45 +0000
Subject: [PATCH 08/28] fix: restrict equidistant-probability grids to positive
 energies

For a given coverage, the equidistant-energy grid uses the limits of
the coverage interval, which excludes negative energies with a warning.
The equidistant-probability grid silently contained negative energies.
---
 ries/resonance/resonance.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index d14e69e..59afd83 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -350,26 +350,21 @@ class Resonance(CrossSection):
         - ndarray, array of grid points
         """
         if isinstance(coverage_or_limits, (int, float)):
-            limits = (
-                0.5 * (1.0 - coverage_or_limits),
-                0.5 * (1.0 + coverage_or_limits),
-            )
-        else:
-            limits = self.probability_distribution.cdf(
-                coverage_or_limits, *self.probability_distribution_parameters
-            )
+            coverage_or_limits = self.coverage_interval(coverage_or_limits)
+        limits = self.probability_distribution.cdf(
+            coverage_or_limits, *self.probability_distribution_parameters
+        )
         equ_dis_pro_grid = self.probability_distribution.ppf(
             np.linspace(limits[0], limits[1], n_points),
             *self.probability_distribution_parameters,
         )
-        # This last if clause prevents rounding errors.
+        # The following assignments prevent rounding errors.
         # For finite limits that are very far away from the resonance energy,
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
-        if not isinstance(coverage_or_limits, (int, float)):
-            equ_dis_pro_grid[0] = coverage_or_limits[0]
-            equ_dis_pro_grid[-1] = coverage_or_limits[1]
+        equ_dis_pro_grid[0] = coverage_or_limits[0]
+        equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
 
     def get_energy_integrated_cross_section(self):
-- 
2.43.0


From d3c29aecf9616a991aa4856ab64c7000bd5722ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:55 +0000
Subject: [PATCH 09/28] fix: keep all points of equidistant-probability grids
 inside the limits

If both limits are far away from the resonance on the same side, the
CDF may be 0 or 1 for both of them. In that case, only the first and the
last point of the grid were replaced by the limits, while the others
were infinite or outside of the given range.
---
 ries/resonance/resonance.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 59afd83..df8fe48 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -358,11 +358,15 @@ class Resonance(CrossSection):
             np.linspace(limits[0], limits[1], n_points),
             *self.probability_distribution_parameters,
         )
-        # The following assignments prevent rounding errors.
+        # The following restriction to the limits prevents rounding errors.
         # For finite limits that are very far away from the resonance energy,
         # probability_distribution.cdf() may return 0 or 1 instead of 0.000... or 0.999...,
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
+        # If the range does not contain the resonance, this may happen for all points of the grid.
+        equ_dis_pro_grid = np.clip(
+            equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
+        )
         equ_dis_pro_grid[0] = coverage_or_limits[0]
         equ_dis_pro_grid[-1] = coverage_or_limits[1]
         return equ_dis_pro_grid
-- 
2.43.0


From a3a55239f8f1372328afb583827093415ea162dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 10/28] fix: use the mass of the scattering particle in the
 Compton kinematics

The kinematic relations and the energy-differential cross sections
always used the mass of the electron, even if the KleinNishina object
had been created for another particle.
---
 ries/nonresonant/klein_nishina.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index ba57256..6799042 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -155,8 +155,7 @@ class KleinNishina(Nonresonant):
 
         return self.Ep_over_E(E, np.pi) * E
 
-    @staticmethod
-    def theta(E, Ep):
+    def theta(self, E, Ep):
         """Scattering angle for a given scattered energy
 
         Parameters:
@@ -168,15 +167,9 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(
-            1
-            - (E / Ep - 1)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
-            / E
-        )
+        return np.arccos(1 - (E / Ep - 1) * self.mc2 / E)
 
-    @staticmethod
-    def Ep_over_E(E, theta):
+    def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
 
         Parameters:
@@ -188,12 +181,7 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, ratio of the energy of the scattered photon and its initial energy.
         """
-        return 1.0 / (
-            1.0
-            + E
-            / physical_constants["electron mass energy equivalent in MeV"][0]
-            * (1.0 - np.cos(theta))
-        )
+        return 1.0 / (1.0 + E / self.mc2 * (1.0 - np.cos(theta)))
 
     def cs_diff_dOmega(self, E, theta, phi):
         """Differential cross section w.r.t. the solid-angle
@@ -262,7 +250,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega(E, self.theta(E, Ep), phi)
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
@@ -280,7 +268,7 @@ class KleinNishina(Nonresonant):
         """
         return (
             self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
-            * physical_constants["electron mass energy equivalent in MeV"][0]
+            * self.mc2
             / (Ep * Ep)
         )
 
-- 
2.43.0


From 516a3ace5e2f66a2cb933f9ff0c54c4835f1a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 11/28] fix: average the Klein-Nishina cross section over the
 azimuthal angle

The cross section for an unpolarized photon is defined as the azimuthal
average, but it was too large by a factor of 2 pi, because the integral
had not been divided by the range of the angle. The cross sections that
are integrated over the azimuthal angle are unchanged.
---
 ries/nonresonant/klein_nishina.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 6799042..e9616e9 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -47,7 +47,7 @@ The equation above also contains the energy of the scattered photon, :math:`E^\p
 If no information on the polarization of the incident photon is available, the differential
 cross section can be averaged over the azimuthal angle:
 
-.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{\pi \alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
+.. math:: \frac{\mathrm{d} \sigma_\mathrm{Compton, unpolarized}}{\mathrm{d}\Omega} (E, \Omega) = \frac{\int_0^{2\pi} \frac{\mathrm{d} \sigma_\mathrm{Compton}}{\mathrm{d}\Omega} (E, \Omega) \mathrm{d} \varphi}{\int_0^{2\pi} \mathrm{d} \varphi} = \frac{1}{2} \frac{\alpha^2 \hbar^2}{m^2 c^2} \left( \frac{E^\prime}{E} \right)^2 \left[ \frac{E^\prime}{E} + \frac{E}{E^\prime} - \sin \left( \theta \right)^2 \right].
 
 An integration of either :math:`\mathrm{d} \sigma_\mathrm{Compton} / \mathrm{d} \Omega` or
 :math:`\mathrm{d} \sigma_\mathrm{Compton, unpolarized} / \mathrm{d} \Omega` over the azimuthal
@@ -224,7 +224,7 @@ class KleinNishina(Nonresonant):
 
         relative_energy_change = self.Ep_over_E(E, theta)
         return (
-            np.pi
+            0.5
             * self.scale_factor
             * relative_energy_change
             * relative_energy_change
@@ -267,7 +267,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, energy-differential cross section in :math:`\mathrm{fm}^2 \mathrm{MeV}^{-1}`.
         """
         return (
-            self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
+            2.0
+            * np.pi
+            * self.cs_diff_dOmega_unpolarized(E, self.theta(E, Ep))
             * self.mc2
             / (Ep * Ep)
         )
@@ -285,7 +287,9 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, scattering-angle differential cross section in :math:`\mathrm{fm}^2`.
         """
 
-        return self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        return (
+            2.0 * np.pi * self.cs_diff_dOmega_unpolarized(E, theta) * np.sin(theta)
+        )
 
     def cs_total(self, E):
         r"""Total cross section
-- 
2.43.0


From 42917cff16fa2fd9e3c80c38b52eed07be78cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 12/28] fix: avoid undefined scattering angles at the Compton
 edge

Due to rounding errors, the cosine of the scattering angle may be
slightly smaller than -1 for a photon energy that is equal to the
Compton edge. The angle and the energy-differential cross sections were
NaN in that case.
---
 ries/nonresonant/klein_nishina.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index e9616e9..04855d7 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -167,7 +167,13 @@ class KleinNishina(Nonresonant):
 
         - array_like or scalar, scattering angle of the photon in radians.
         """
-        return np.arccos(1 - (E / Ep - 1) * self.mc2 / E)
+        cos_theta = 1 - (E / Ep - 1) * self.mc2 / E
+        # At the Compton edge, the cosine may be slightly smaller than -1 due to rounding errors.
+        return np.arccos(
+            np.where(
+                abs(cos_theta) < 1 + 1e-9, np.clip(cos_theta, -1.0, 1.0), cos_theta
+            )
+        )
 
     def Ep_over_E(self, E, theta):
         """Ratio of final and initial photon energy for a given scattering angle
-- 
2.43.0


From 1280de7f0c2d3407e031566df1873560bd88b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 13/28] fix: use the current value of hbar c in the
 Klein-Nishina formula

The old name of the constant refers to an outdated CODATA value, which
differs from the one that is used for the resonances.
---
 ries/nonresonant/klein_nishina.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 04855d7..561bea6 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -114,7 +114,7 @@ class KleinNishina(Nonresonant):
         self.scale_factor = (
             self.Z
             * physical_constants["fine-structure constant"][0] ** 2
-            * physical_constants["Planck constant over 2 pi times c in MeV fm"][0] ** 2
+            * physical_constants["reduced Planck constant times c in MeV fm"][0] ** 2
             / (self.mc2 * self.mc2)
         )
 
-- 
2.43.0


From 49560db8c0b71f841cd5ea05c477d0565a520352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 14/28] fix: evaluate the Klein-Nishina formula at low energies

Below about 1 keV, the total cross section became increasingly
inaccurate because of cancellation, and below about 10 eV it was
meaningless or even negative.
---
 ries/nonresonant/klein_nishina.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ries/nonresonant/klein_nishina.py b/ries/nonresonant/klein_nishina.py
index 561bea6..a1308be 100644
--- a/ries/nonresonant/klein_nishina.py
+++ b/ries/nonresonant/klein_nishina.py
@@ -309,12 +309,23 @@ class KleinNishina(Nonresonant):
         - array_like or scalar, total cross section in :math:`\mathrm{fm}^2`.
         """
         x = E / self.mc2
+        # At low energies, the terms of the exact expression cancel each other almost completely.
+        # Use the first terms of the Taylor series in this case.
+        low_energy = x < 5e-3
+        taylor_series = (8 / 3) * (
+            1 - x * (2 - x * (26 / 5 - x * (133 / 10 - x * (1144 / 35 - x * 544 / 7))))
+        )
+        x = np.where(low_energy, 1.0, x)
         return (
             np.pi
             * self.scale_factor
-            * x ** -3
-            * (
-                (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
-                + ((x - 2) * x - 2) * np.log(1 + 2 * x)
+            * np.where(
+                low_energy,
+                taylor_series,
+                x ** -3
+                * (
+                    (2 * x * (2 + x * (1 + x) * (8 + x))) / ((1 + 2 * x) ** 2)
+                    + ((x - 2) * x - 2) * np.log(1 + 2 * x)
+                ),
             )
         )
-- 
2.43.0


From 41cf241a78383311d21959d509001b4173956f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:37 +0000
Subject: [PATCH 15/28] fix: accept an array of limits in quad_partition

The limits of the other coordinates are documented to be an array, but
an ndarray raised a ValueError because its truth value is ambiguous.
---
 ries/integration/quad_partition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ries/integration/quad_partition.py b/ries/integration/quad_partition.py
index d850830..94e78a9 100644
--- a/ries/integration/quad_partition.py
+++ b/ries/integration/quad_partition.py
@@ -67,7 +67,8 @@ def quad_partition(f, x0, x1_to_xn_minus_1=None):
     """
     integral = 0.0
     uncertainty_estimate = 0.0
-    x1_to_xn_minus_1 = x1_to_xn_minus_1 or []
+    if x1_to_xn_minus_1 is None:
+        x1_to_xn_minus_1 = []
 
     for i in range(len(x0) - 1):
         nquad_result = nquad(f, [[x0[i], x0[i + 1]], *x1_to_xn_minus_1])
-- 
2.43.0


From 4887dbd48b0acb34c120a7e7673149fad5e41ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:38 +0000
Subject: [PATCH 16/28] fix: accept all types of real scalars in the addition
 of cross sections

A numpy scalar that is not derived from the built-in types, like the
elements of an integer array, was not recognized as a scalar.
---
 ries/cross_section.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 38ad450..4466a90 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -62,6 +62,7 @@ This may lead to runtime `TypeError`s.*
 """
 
 from itertools import chain
+from numbers import Real
 
 import numpy as np
 
@@ -81,7 +82,7 @@ class CrossSection:
 
         See `CrossSectionWeightedSum.__add__()`.
         """
-        if isinstance(other, (int, float)):
+        if isinstance(other, Real):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
         return CrossSectionWeightedSum([self, other])
 
@@ -253,7 +254,7 @@ class CrossSectionWeightedSum:
             reactions.append(reaction)
             scale_factors.append(self.scale_factors[i])
 
-        if isinstance(other, (int, float)):
+        if isinstance(other, Real):
             reactions.append(ConstantCrossSection(other))
             scale_factors.append(1.0)
         elif isinstance(other, CrossSection):
-- 
2.43.0


From 64e0baae421b88e9b54cd286030a841c12ad5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:38 +0000
Subject: [PATCH 17/28] fix: allow the creation of an empty sum of cross
 sections

The list of reactions is optional, but omitting it raised a TypeError.
---
 ries/cross_section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 4466a90..fe2e592 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -223,7 +223,7 @@ class CrossSectionWeightedSum:
         """
         self.reactions = reactions or []
         if scale_factors is None:
-            scale_factors = [1.0] * len(reactions)
+            scale_factors = [1.0] * len(self.reactions)
         self.scale_factors = scale_factors
 
     def __add__(self, other):
-- 
2.43.0


From 5f2f9afcbc6c2071720df887971d852f58856354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:38 +0000
Subject: [PATCH 18/28] fix: evaluate a constant cross section for an array of
 energies

Like all other cross sections, a constant cross section should return
one value for each energy. For example, this is required for the
integration with the darboux function.
---
 ries/cross_section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index fe2e592..861b89d 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -191,6 +191,8 @@ class ConstantCrossSection(CrossSection):
 
         See also `CrossSection.__call__()`.
         """
+        if np.ndim(energy) > 0:
+            return np.full(np.shape(energy), self.constant)
         return self.constant
 
     def equidistant_probability_grid(self, limits, n_points):
-- 
2.43.0


From 7aa61e95049418625c39de5dd180f5b13380e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:38 +0000
Subject: [PATCH 19/28] fix: bind the atomic number in the conversion of
 attenuation coefficients

The conversion function of each element referred to the variable of the
loop, so that after the import, all of them used the mass of uranium.
---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 969d9a4..278a9a0 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -238,7 +238,7 @@ for Z in range(1, 93):
     xrmac_cm2_per_g[X[Z]] = XRMAC(str(xrmac_data_dir / "{:02d}.txt".format(Z)))
     xrmac_fm2_per_atom[X[Z]] = XRMAC(
         str(xrmac_data_dir / "{:02d}.txt".format(Z)),
-        xrmac_conversion=lambda xrmac: xrmac
+        xrmac_conversion=lambda xrmac, Z=Z: xrmac
         * cm_to_fm ** 2
         * natural_elements[X[Z]].amu
         * physical_constants["atomic mass constant"][0]
-- 
2.43.0


From 7ee0091fe5cba9430154ec4ca38091006c029578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:29 +0000
Subject: [PATCH 20/28] fix: invert the pseudo-Voigt CDF to the precision of
 its quantiles

The iteration stopped at a step of a thousandth of the width, which left
errors of up to 1e-7 in the probability without a warning. Use a smaller
tolerance that is limited by the rounding of the energies.
---
 ries/resonance/pseudo_voigt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 02be619..08556ca 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -232,7 +232,11 @@ class PseudoVoigtDistribution:
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
                 # The default of `newton` is an absolute tolerance of about 1e-8 (MeV), which may
                 # be larger than the width of the distribution.
-                tol=min(1.48e-8, 1e-3 * self.Gamma),
+                # For very narrow distributions, the rounding of the energies limits the tolerance.
+                tol=min(
+                    1.48e-8,
+                    max(1e-5 * self.Gamma, 4.0 * np.spacing(self.resonance_energy)),
+                ),
                 full_output=True,
             )
             if isinstance(quantile, (int, float)):
-- 
2.43.0


From bc70bc345f3dd0a7e4dbfc4e40a6f348ecf37a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:55 +0000
Subject: [PATCH 21/28] fix: combine the constituents when a sum is added to a
 cross section

Adding a sum to a single cross section kept a reference to the sum object
itself. A later change of its constituents or scale factors changed the
previously created result as well, in contrast to the documentation and to
the addition in reverse order.
---
 ries/cross_section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ries/cross_section.py b/ries/cross_section.py
index 861b89d..7191c7f 100644
--- a/ries/cross_section.py
+++ b/ries/cross_section.py
@@ -84,6 +84,8 @@ class CrossSection:
         """
         if isinstance(other, Real):
             return CrossSectionWeightedSum([self, ConstantCrossSection(other)])
+        if isinstance(other, CrossSectionWeightedSum):
+            return CrossSectionWeightedSum([self]) + other
         return CrossSectionWeightedSum([self, other])
 
     def __radd__(self, other):
-- 
2.43.0


From f243a9764eacc14043e432581a64dbe38e43c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:33:13 +0000
Subject: [PATCH 22/28] fix: scale the tolerance of the pseudo-Voigt PPF for
 broad distributions

The absolute tolerance was below the rounding errors of the CDF in the
tails of broad distributions, so that the less accurate approximation was
used there.
---
 ries/resonance/pseudo_voigt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 08556ca..d4c73c9 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -231,12 +231,10 @@ class PseudoVoigtDistribution:
                 else self.resonance_energy * np.ones(len(quantile)),
                 fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
                 # The default of `newton` is an absolute tolerance of about 1e-8 (MeV), which may
-                # be larger than the width of the distribution.
+                # be larger than the width of the distribution, or smaller than the rounding
+                # errors of the CDF in the tails of a broad one.
                 # For very narrow distributions, the rounding of the energies limits the tolerance.
-                tol=min(
-                    1.48e-8,
-                    max(1e-5 * self.Gamma, 4.0 * np.spacing(self.resonance_energy)),
-                ),
+                tol=max(1e-5 * self.Gamma, 4.0 * np.spacing(self.resonance_energy)),
                 full_output=True,
             )
             if isinstance(quantile, (int, float)):
-- 
2.43.0


From ed694e612297bf3a251a8b780f15822b8bcfeab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:09 +0000
Subject: [PATCH 23/28] fix: read attenuation lines without trailing blank
 completely

The last line of the lead table ends without the trailing blank, so its last
character was cut off and 3.595E-02 was read as 3.595E-0.
---
 ries/nonresonant/xrmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ries/nonresonant/xrmac.py b/ries/nonresonant/xrmac.py
index 278a9a0..06d8e75 100644
--- a/ries/nonresonant/xrmac.py
+++ b/ries/nonresonant/xrmac.py
@@ -214,7 +214,7 @@ class XRMAC(Nonresonant):
                 skip = 3
         with open(xrmac_file_name, "r") as file:
             for line in file:
-                line = line[skip:-2].split(sep="  ")
+                line = line[skip:].split()
                 data.append(
                     [
                         self.energy_conversion(float(line[0])),
-- 
2.43.0


From be1b29603719409969259429b64a9c3192b938df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:22 +0000
Subject: [PATCH 24/28] fix: stop the inversion of the pseudo-Voigt CDF at its
 rounding errors

In the tails of a narrow distribution, the rounding errors of the CDF
correspond to energy differences above the tolerance of the root finding.
It did not converge for some of the quantiles, which were replaced by an
approximation that is not compatible with the remaining ones.
---
 ries/resonance/pseudo_voigt.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index d4c73c9..af62116 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -214,6 +214,14 @@ class PseudoVoigtDistribution:
         float or array_like, PPF
         """
 
+        def cdf_minus_quantile(E):
+            difference = self.pseudo_voigt_expression(E, "cdf") - quantile
+            # Rounding errors of the CDF prevent convergence in the tails of a narrow
+            # distribution, where they correspond to large energy differences.
+            return np.where(
+                np.abs(difference) < 2.0 * np.finfo(float).eps, 0.0, difference
+            )
+
         try:
             # scipy.optimize.newton returns different output depending on whether quantile is a
             # scalar or an array.
@@ -221,7 +229,7 @@ class PseudoVoigtDistribution:
             # the algorithm converged is `newton_result[1]`.converged`.
             # In the case of an array, it is `newton_result[0]` and `newton_result[1]`.
             newton_result = newton(
-                lambda E: self.pseudo_voigt_expression(E, "cdf") - quantile,
+                cdf_minus_quantile,
                 # Use resonance energy as start value.
                 # There are closer guesses for an arbitrary q, but starting at the resonance
                 # energy ensures that the algorithm does not have rounding errors from the start
-- 
2.43.0


From b45c5c332609a65bbe1e49fd46f3cf50c483158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:56 +0000
Subject: [PATCH 25/28] fix: return the points of equidistant-probability grids
 in order

In the tails, neighbouring points may have probabilities that differ by
less than the accuracy of the inverted CDF, so their order was random.
---
 ries/resonance/resonance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index df8fe48..338299c 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -364,8 +364,9 @@ class Resonance(CrossSection):
         # which would then cause probability_distribution.ppf to return -np.inf or np.inf as
         # limits of the grid instead of the given values.
         # If the range does not contain the resonance, this may happen for all points of the grid.
-        equ_dis_pro_grid = np.clip(
-            equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1]
+        # Rounding errors may also change the order of points with very similar probabilities.
+        equ_dis_pro_grid = np.sort(
+            np.clip(equ_dis_pro_grid, coverage_or_limits[0], coverage_or_limits[1])
         )
         equ_dis_pro_grid[0] = coverage_or_limits[0]
         equ_dis_pro_grid[-1] = coverage_or_limits[1]
-- 
2.43.0


From 1ebe82867049ce8e0b9e560aeea035dfcae29753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:27 +0000
Subject: [PATCH 26/28] fix: warn again if the pseudo-Voigt PPF of a scalar
 does not converge

Stopping the inversion at the rounding errors of the CDF removed the warning
and the approximation for single quantiles as well, which test_voigt_ppf
checks. Restrict it to arrays, where both kinds of results were mixed.
---
 ries/resonance/pseudo_voigt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index af62116..2ac6522 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -216,8 +216,12 @@ class PseudoVoigtDistribution:
 
         def cdf_minus_quantile(E):
             difference = self.pseudo_voigt_expression(E, "cdf") - quantile
+            if isinstance(quantile, (float, int)):
+                return difference
             # Rounding errors of the CDF prevent convergence in the tails of a narrow
             # distribution, where they correspond to large energy differences.
+            # For an array, the approximation below would then be used for some of the
+            # quantiles only, although it is not compatible with the remaining ones.
             return np.where(
                 np.abs(difference) < 2.0 * np.finfo(float).eps, 0.0, difference
             )
-- 
2.43.0


From 4d0afdf31d9f8e40353b419ec5b1442d2b1e7f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:47:28 +0000
Subject: [PATCH 27/28] fix: use the inverse of the pseudo-Voigt CDF up to
 rounding errors consistently

If the inversion does not converge because of the rounding errors of the CDF,
warn as before, but accept the energies at which the CDF equals the quantile
up to rounding errors, for scalars and arrays alike. The approximation is only
used if there is no convergence either.
---
 ries/resonance/pseudo_voigt.py | 66 +++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/ries/resonance/pseudo_voigt.py b/ries/resonance/pseudo_voigt.py
index 2ac6522..da3ba34 100644
--- a/ries/resonance/pseudo_voigt.py
+++ b/ries/resonance/pseudo_voigt.py
@@ -214,18 +214,6 @@ class PseudoVoigtDistribution:
         float or array_like, PPF
         """
 
-        def cdf_minus_quantile(E):
-            difference = self.pseudo_voigt_expression(E, "cdf") - quantile
-            if isinstance(quantile, (float, int)):
-                return difference
-            # Rounding errors of the CDF prevent convergence in the tails of a narrow
-            # distribution, where they correspond to large energy differences.
-            # For an array, the approximation below would then be used for some of the
-            # quantiles only, although it is not compatible with the remaining ones.
-            return np.where(
-                np.abs(difference) < 2.0 * np.finfo(float).eps, 0.0, difference
-            )
-
         try:
             # scipy.optimize.newton returns different output depending on whether quantile is a
             # scalar or an array.
@@ -233,7 +221,7 @@ class PseudoVoigtDistribution:
             # the algorithm converged is `newton_result[1]`.converged`.
             # In the case of an array, it is `newton_result[0]` and `newton_result[1]`.
             newton_result = newton(
-                cdf_minus_quantile,
+                lambda E: self.pseudo_voigt_expression(E, "cdf") - quantile,
                 # Use resonance energy as start value.
                 # There are closer guesses for an arbitrary q, but starting at the resonance
                 # energy ensures that the algorithm does not have rounding errors from the start
@@ -263,9 +251,55 @@ class PseudoVoigtDistribution:
             UserWarning,
         )
         approximation = self.pseudo_voigt_expression(quantile, "ppf")
-        if newton_result is None or isinstance(quantile, (int, float)):
-            return approximation
-        return np.where(newton_result[1], newton_result[0], approximation)
+        if isinstance(quantile, (int, float)):
+            return self.ppf_within_rounding_errors(
+                np.array([quantile]), np.array([approximation])
+            )[0]
+        if newton_result is not None:
+            approximation = np.where(newton_result[1], newton_result[0], approximation)
+            unconverged = ~newton_result[1]
+        else:
+            unconverged = np.ones(len(quantile), dtype=bool)
+        approximation[unconverged] = self.ppf_within_rounding_errors(
+            np.asarray(quantile)[unconverged], approximation[unconverged]
+        )
+        return approximation
+
+    def ppf_within_rounding_errors(self, quantile, approximation):
+        """PPF of the pseudo-Voigt distribution, up to rounding errors of the CDF
+
+        In the tails of a narrow distribution, the rounding errors of the CDF correspond to large
+        energy differences.
+        This function accepts energies at which the CDF equals the quantile up to rounding errors.
+
+        Parameters:
+
+        - `quantile`, array_like, quantile.
+        - `approximation`, array_like, results to be used if there is no convergence.
+
+        Returns:
+
+        array_like, PPF
+        """
+
+        # Add the median, which always converges, because `newton` treats arrays of length one like
+        # scalars and raises an exception if it does not converge for any of the values.
+        quantile = np.append(quantile, 0.5)
+
+        def cdf_minus_quantile(E):
+            difference = self.pseudo_voigt_expression(E, "cdf") - quantile
+            return np.where(
+                np.abs(difference) < 2.0 * np.finfo(float).eps, 0.0, difference
+            )
+
+        newton_result = newton(
+            cdf_minus_quantile,
+            self.resonance_energy * np.ones(len(quantile)),
+            fprime=lambda E: self.pseudo_voigt_expression(E, "pdf"),
+            tol=max(1e-5 * self.Gamma, 4.0 * np.spacing(self.resonance_energy)),
+            full_output=True,
+        )
+        return np.where(newton_result[1][:-1], newton_result[0][:-1], approximation)
 
     def get_Gamma(self):
         """Calculate Gamma parameter
-- 
2.43.0


From 33416c9dc1586d33a754b9386848a48e6d2cf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:03 +0000
Subject: [PATCH 28/28] fix: keep the recoil correction of a resonance as
 documented

---
 ries/resonance/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ries/resonance/resonance.py b/ries/resonance/resonance.py
index 338299c..b46f30f 100644
--- a/ries/resonance/resonance.py
+++ b/ries/resonance/resonance.py
@@ -221,6 +221,7 @@ class Resonance(CrossSection):
         self.initial_state = initial_state
         self.intermediate_state = intermediate_state
         self.final_state = final_state
+        self.recoil_correction = recoil_correction
 
         self.resonance_energy = recoil_correction(
             self.intermediate_state.excitation_energy
-- 
2.43.0

