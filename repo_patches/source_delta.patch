From e172cee945afd798f45330b63fb3fe5a25dcba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 01/18] fix: pass relative and absolute injection rates to the
 time-evolution callback in the order of the result record

---
 agnpy/time_evolution/time_evolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index df9f54a..0487e86 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -270,8 +270,8 @@ class TimeEvolution:
             total_time_elapsed += step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
-                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), abs_injection_rates,
-                    rel_injection_rates))
+                    gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
+                    abs_injection_rates))
             progress_percent = int((100 * total_time_elapsed / self._total_time_sec).round(0))
             log.info("Progress: %3d%% %s (%i bins)", progress_percent, total_time_elapsed, gm_bins.shape[-1])
 
-- 
2.43.0


From cc1a1c89fdcdd89c966e67c7bdfab7b94ced8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 02/18] fix: do not reuse the systematic error of another
 instrument when loading sherpa flux points

---
 agnpy/fit/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/agnpy/fit/data.py b/agnpy/fit/data.py
index 313f65b..bf9964c 100644
--- a/agnpy/fit/data.py
+++ b/agnpy/fit/data.py
@@ -46,14 +46,13 @@ def load_sherpa_flux_points(sed_path, E_min, E_max, systematics_dict=None):
         e2dnde_errn = tab["e2dnde_errn"]
         e2dnde_errp = tab["e2dnde_errp"]
 
-        # add systematic errors
+        # add systematic errors, instruments without an entry have none
+        e2dnde_err_syst = np.zeros_like(e2dnde)
         if systematics_dict is not None:
             for instrument in systematics_dict.keys():
                 if name == instrument:
                     syst_rel_error = systematics_dict[instrument]
                     e2dnde_err_syst = syst_rel_error * e2dnde
-        else: 
-            e2dnde_err_syst = np.zeros_like(e2dnde)
 
         x = np.append(x, energy)
         y = np.append(y, e2dnde)
-- 
2.43.0


From a16fb71754849f761c8d9e287824769686a0597b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 03/18] fix: sherpa external Compton model returned None when
 the targets were not listed as [blr, dt]

---
 agnpy/fit/sherpa_wrapper.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/agnpy/fit/sherpa_wrapper.py b/agnpy/fit/sherpa_wrapper.py
index fb38086..1936cfb 100644
--- a/agnpy/fit/sherpa_wrapper.py
+++ b/agnpy/fit/sherpa_wrapper.py
@@ -464,9 +464,14 @@ class ExternalComptonRegriddableModel1D(model.RegriddableModel1D):
 
     def calc(self, pars, x):
         """Evaluate the SED model."""
-        if self.targets == ["blr"]:
+        has_blr = "blr" in self.targets
+        has_dt = "dt" in self.targets
+        if has_blr and has_dt:
+            return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
+        if has_blr:
             return _evaluate_sed_ec_blr_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["dt"]:
+        if has_dt:
             return _evaluate_sed_ec_dt_scenario(x, pars, self._n_e, self.ssa)
-        if self.targets == ["blr", "dt"]:
-            return _evaluate_sed_ec_blr_dt_scenario(x, pars, self._n_e, self.ssa)
+        raise ValueError(
+            f"no supported target for external Compton in {self.targets}, use 'blr' and / or 'dt'"
+        )
-- 
2.43.0


From 558680db728a53e198c9f2a1042ef2be4fa80f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 04/18] fix: raise an explicit error, instead of returning
 None, for targets with no implementation

---
 agnpy/absorption/targets_absorption.py | 4 ++++
 agnpy/compton/external_compton.py      | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index 870cbd2..ffe9d35 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -729,6 +729,10 @@ class Absorption:
             if isinstance(self.target, RingDustTorus):
                 return self.tau_dt_mu_s(nu)
 
+        raise NotImplementedError(
+            f"absorption on {type(self.target).__name__} is not implemented for mu_s = {self.mu_s}"
+        )
+
     def absorption(self, nu):
         """This function returns the attenuation of the emission assuming that
         the optical depth tau is computed from the production place to the observer.
diff --git a/agnpy/compton/external_compton.py b/agnpy/compton/external_compton.py
index 692c24e..974d1ae 100644
--- a/agnpy/compton/external_compton.py
+++ b/agnpy/compton/external_compton.py
@@ -632,6 +632,9 @@ class ExternalCompton(RadiativeProcess):
             return self.sed_flux_blr(nu)
         if isinstance(self.target, RingDustTorus):
             return self.sed_flux_dt(nu)
+        raise NotImplementedError(
+            f"external Compton on {type(self.target).__name__} is not implemented"
+        )
 
     def sed_luminosity(self, nu):
         r"""Evaluates the external Compton luminosity SED
-- 
2.43.0


From 1e19d2383db89ad6b6aafdeb44f01c6f2dbb5131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 05/18] fix: the norm parameter of the gammapy models was
 ignored at evaluation

---
 agnpy/fit/gammapy_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/fit/gammapy_wrapper.py b/agnpy/fit/gammapy_wrapper.py
index 105e20d..b06e693 100644
--- a/agnpy/fit/gammapy_wrapper.py
+++ b/agnpy/fit/gammapy_wrapper.py
@@ -178,6 +178,7 @@ class SynchrotronSelfComptonSpectralModel(SpectralModel):
         sed = sed_synch + sed_ssc
 
         # gammapy requires a differential flux in input
+        sed = kwargs["norm"] * sed
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
 
 
@@ -354,4 +355,5 @@ class ExternalComptonSpectralModel(SpectralModel):
             )
             sed += sed_bb_dt
 
+        sed = kwargs["norm"] * sed
         return (sed.reshape(energy.shape) / energy**2).to("1 / (cm2 eV s)")
-- 
2.43.0


From 6356bb69c1fcbac70fd6372f6ba3f07d51b47dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 06/18] fix: evaluating a particle distribution modified in
 place the array of Lorentz factors passed by the caller

---
 agnpy/spectra/spectra.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 8a92977..bc71aa4 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -214,15 +214,19 @@ class ParticleDistribution(ABC):
         the first and last gamma values are falling outside the range of the allowed min/max values,
         and then incorrectly evaluate to zero. To correct for such cases, check the relative error,
         and if it is less than some very small value (let's say 1e-10), correct the gamma array accordingly, to fit into the allowed range.
+        The corrected array is returned, the input array is never modified.
         """
         if not isinstance(gamma, Iterable) or len(gamma) == 0:
-            return
+            return gamma
         if gamma_min > gamma[0]:
             if (gamma_min - gamma[0]) / gamma[0] < 1e-10:
+                gamma = np.array(gamma, dtype=float)
                 gamma[0] = gamma_min
         if gamma[-1] > gamma_max:
             if (gamma[-1] - gamma_max) / gamma_max < 1e-10:
+                gamma = np.array(gamma, dtype=float)
                 gamma[-1] = gamma_max
+        return gamma
 
     @abstractmethod
     def __call__(self, gammas):
@@ -271,7 +275,7 @@ class PowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max), k * gamma ** (-p), 0
         )
@@ -365,7 +369,7 @@ class BrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -469,7 +473,7 @@ class LogParabola(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, q, gamma_0, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         gamma_ratio = gamma / gamma_0
         index = -p - q * np.log10(gamma_ratio)
         return np.where(
@@ -568,7 +572,7 @@ class ExpCutoffPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p, gamma_c, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
             k * gamma ** (-p) * np.exp(-gamma / gamma_c),
@@ -672,7 +676,7 @@ class ExpCutoffBrokenPowerLaw(ParticleDistribution):
 
     @staticmethod
     def evaluate(gamma, k, p1, p2, gamma_c, gamma_b, gamma_min, gamma_max):
-        ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = ParticleDistribution._correct_array_boundary_values(gamma, gamma_min, gamma_max)
         index = np.where(gamma <= gamma_b, p1, p2)
         return np.where(
             (gamma_min <= gamma) * (gamma <= gamma_max),
@@ -798,7 +802,7 @@ class InterpolatedDistribution(ParticleDistribution):
         ]
 
     def evaluate(self, gamma, norm, gamma_min, gamma_max):
-        self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
+        gamma = self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
         values = np.zeros_like(gamma)
-- 
2.43.0


From e88be2d3ae02e5e4a811b566487f256a9bafa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 07/18] fix: densities of the interpolated distribution were
 truncated to integers for integer Lorentz factors

---
 agnpy/spectra/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index bc71aa4..9907ba0 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -805,7 +805,7 @@ class InterpolatedDistribution(ParticleDistribution):
         gamma = self._correct_array_boundary_values(gamma, gamma_min, gamma_max)
 
         valid_indices = (gamma_min <= gamma) & (gamma <= gamma_max)
-        values = np.zeros_like(gamma)
+        values = np.zeros_like(gamma, dtype=float)
         values[valid_indices] = np.power(10, self.log10_interp(np.log10(gamma[valid_indices])))
         return norm * values * u.Unit("cm-3")
 
@@ -870,4 +870,4 @@ class EmptyDistribution(ParticleDistribution):
         return 0 * u.Unit("cm-3")
 
     def evaluate(self, gamma, *args):
-        return np.zeros_like(gamma) * u.Unit("cm-3")
+        return np.zeros_like(gamma, dtype=float) * u.Unit("cm-3")
-- 
2.43.0


From d505ef8943e179901da038a49cf2da26a951a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 08/18] fix: the time evolution truncated the Lorentz factors
 of an integer initial_gamma_array

---
 agnpy/time_evolution/time_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0487e86..a226d40 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -152,7 +152,7 @@ class TimeEvolution:
         if initial_gamma_array is not None and any(initial_gamma_array[1:] <= initial_gamma_array[:-1]):
             raise ValueError("initial_gamma_array must be strictly increasing")
         if initial_gamma_array is not None:
-           self._initial_gamma_array = initial_gamma_array
+           self._initial_gamma_array = np.asarray(initial_gamma_array, dtype=float)
         else:
             gamma_min = np.max([self._blob.n_e.gamma_min, gamma_bounds[0] if gamma_bounds is not None else 0])
             gamma_max = np.min([self._blob.n_e.gamma_max, gamma_bounds[-1] if gamma_bounds is not None else np.inf])
-- 
2.43.0


From 14100d4eb9729ac4550b92bbf8d37543898813c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 09/18] fix: the distribution left by a fully depleted time
 evolution had arrays as minimum and maximum Lorentz factors

---
 agnpy/time_evolution/_time_evolution_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/_time_evolution_utils.py b/agnpy/time_evolution/_time_evolution_utils.py
index 8841728..79d3a3f 100644
--- a/agnpy/time_evolution/_time_evolution_utils.py
+++ b/agnpy/time_evolution/_time_evolution_utils.py
@@ -234,7 +234,7 @@ def remove_empty_densities(result: TimeEvaluationResult) -> TimeEvaluationResult
 def update_distribution(gamma_array, n_array, blob):
     gamma_sorted_and_merged, n_array_sorted_and_merged, _ = sort_and_merge_duplicates(gamma_array, n_array, None)
     if np.all(n_array_sorted_and_merged == 0):
-        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0], gamma_max=gamma_sorted_and_merged[-1])
+        distribution = EmptyDistribution(gamma_min=gamma_sorted_and_merged[0][0], gamma_max=gamma_sorted_and_merged[0][-1])
     else:
         if len(gamma_sorted_and_merged[0]) == 1:
             raise DistributionToSinglePointCollapseError(gamma_sorted_and_merged[0])
-- 
2.43.0


From 841d263ba040d7c4c715d2a9f9e3074c39ece2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 10/18] fix: the synchrotron self-absorption of an empty
 distribution could not be evaluated

---
 agnpy/spectra/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agnpy/spectra/spectra.py b/agnpy/spectra/spectra.py
index 9907ba0..75f3a72 100644
--- a/agnpy/spectra/spectra.py
+++ b/agnpy/spectra/spectra.py
@@ -871,3 +871,9 @@ class EmptyDistribution(ParticleDistribution):
 
     def evaluate(self, gamma, *args):
         return np.zeros_like(gamma, dtype=float) * u.Unit("cm-3")
+
+    def evaluate_SSA_integrand(self, gamma, *args):
+        return self.evaluate(gamma)
+
+    def SSA_integrand(self, gamma):
+        return self.evaluate_SSA_integrand(gamma)
-- 
2.43.0


From cfe8ee5371377d3502dc757ed0569e7f5019030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 11/18] fix: the luminosity distance of a blob was not updated
 with its redshift

---
 agnpy/emission_regions/blob.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index 5e08435..ee99df6 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -77,8 +77,7 @@ class Blob:
 
         self.R_b = R_b.to("cm")
         self.z = z
-        # if the luminosity distance is not specified, it will be computed from z
-        self.d_L = Distance(z=self.z, cosmology=cosmology).cgs
+        self.cosmology = cosmology
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
@@ -89,6 +88,11 @@ class Blob:
         self.gamma_e_size = gamma_e_size
         self.gamma_p_size = gamma_p_size
 
+    @property
+    def d_L(self):
+        """Luminosity distance of the source, computed from its redshift."""
+        return Distance(z=self.z, cosmology=self.cosmology).cgs
+
     @property
     def V_b(self):
         """Volume of the blob."""
-- 
2.43.0


From aa89e9ce84a4c914a0587f1b49637bd9ddc38549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 12/18] fix: all the blobs created without an electron
 distribution shared the same one

---
 agnpy/emission_regions/blob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/agnpy/emission_regions/blob.py b/agnpy/emission_regions/blob.py
index ee99df6..941a4c8 100644
--- a/agnpy/emission_regions/blob.py
+++ b/agnpy/emission_regions/blob.py
@@ -65,7 +65,7 @@ class Blob:
         delta_D=10,
         Gamma=10,
         B=1 * u.G,
-        n_e : ParticleDistribution = PowerLaw(mass=m_e),
+        n_e : ParticleDistribution = None,
         n_p : ParticleDistribution = None,
         xi=1.0,
         gamma_e_size=200,
@@ -81,7 +81,8 @@ class Blob:
         self.delta_D = delta_D
         self.Gamma = Gamma
         self.B = B
-        self._n_e : ParticleDistribution = n_e
+        # a default distribution of its own, not one shared among the blobs
+        self._n_e : ParticleDistribution = PowerLaw(mass=m_e) if n_e is None else n_e
         self._n_p : ParticleDistribution = n_p
         self.xi = xi
 
-- 
2.43.0


From b89a011568ab701c2e7745e5e97196209027ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:22 +0000
Subject: [PATCH 13/18] fix: the points considered too close to the BLR shell
 depended on the unit of the distances

---
 agnpy/absorption/targets_absorption.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index ffe9d35..d9add0d 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -334,7 +334,7 @@ class Absorption:
 
         # check if any point is too close to R_line, the function works only for mu=1, so
         # we can check directly if R_line is within 'l' array
-        idx = np.isclose(l, R_line, rtol=min_rel_distance)
+        idx = np.isclose(l, R_line, rtol=min_rel_distance, atol=0)
         l[idx] += min_rel_distance * R_line
 
         _mu, _phi, _l, _epsilon_1 = axes_reshaper(mu, phi, l, epsilon_1)
@@ -406,7 +406,7 @@ class Absorption:
 
         # check if for any uu value the position of the photon is too close to the BLR
         x_cross = np.sqrt(r**2 + uu**2 + 2 * uu * r * mu_s)
-        idx = np.isclose(x_cross, R_line, rtol=min_rel_distance)
+        idx = np.isclose(x_cross, R_line, rtol=min_rel_distance, atol=0)
         if idx.any():
             uu[idx] += min_rel_distance * R_line
             # it might happen that some of the points get more shifted then the next one,
-- 
2.43.0


From 41cabdb49195ff4089ee8cfcf3d223dc9c91e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:34 +0000
Subject: [PATCH 14/18] fix: attenuation of homogeneous absorption is 1 where
 the optical depth vanishes

---
 agnpy/absorption/targets_absorption.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/agnpy/absorption/targets_absorption.py b/agnpy/absorption/targets_absorption.py
index d9add0d..e68efac 100644
--- a/agnpy/absorption/targets_absorption.py
+++ b/agnpy/absorption/targets_absorption.py
@@ -748,4 +748,8 @@ class Absorption:
         See e.g. section 2.5.1. of Finke et al. 2008.
         """
         t = self.tau(nu)
-        return (1 - np.exp(-t)) / t
+        # without absorption the attenuation is 1, the limit of (1 - exp(-t)) / t
+        attenuation = np.ones_like(t)
+        absorbed = t != 0
+        attenuation[absorbed] = -np.expm1(-t[absorbed]) / t[absorbed]
+        return attenuation
-- 
2.43.0


From 6433cd77a660b748cb9480bc4b07ad048f46b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 15/18] fix: SED of the disk uses the emitted frequency of
 redshifted photons

---
 agnpy/targets/targets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/agnpy/targets/targets.py b/agnpy/targets/targets.py
index 19bc9a5..75a1154 100644
--- a/agnpy/targets/targets.py
+++ b/agnpy/targets/targets.py
@@ -390,7 +390,7 @@ class SSDisk:
         _I_nu = BlackBody().evaluate(_nu, _T, scale=1)
         integrand = _R / np.power(d_L, 2) * _I_nu * u.sr
         F_nu = 2 * np.pi * np.trapz(integrand, R, axis=0)
-        return mu_s * (nu * F_nu).to("erg cm-2 s-1")
+        return mu_s * (nu_prime * F_nu).to("erg cm-2 s-1")
 
     @staticmethod
     def evaluate_multi_T_bb_norm_sed(
-- 
2.43.0


From 80104d9a664c0c8ec3207b9adb766e6ef61db1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:29 +0000
Subject: [PATCH 16/18] fix: the time handed to the callback of the time
 evolution changed afterwards

The elapsed time was updated in place, hence every record kept by the callback
ended with the time of the last step.
---
 agnpy/time_evolution/time_evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index a226d40..0ab08a6 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -267,7 +267,8 @@ class TimeEvolution:
                                                    remap(mapping, abs_injection_rates, np.nan), recalc_mask)
             rel_injection_rates = recalc_new_rates(gm_bins[0], self._rel_injection_functions, density, subgroups_density,
                                                    remap(mapping, rel_injection_rates, np.nan), recalc_mask)
-            total_time_elapsed += step_time
+            # not in place: the callback may keep the previous value
+            total_time_elapsed = total_time_elapsed + step_time
             if self._distribution_change_callback is not None:
                 self._distribution_change_callback(TimeEvaluationResult(total_time_elapsed,
                     gm_bins[0], density, subgroups_density, energy_changes_lb(en_chg_rates), rel_injection_rates,
-- 
2.43.0


From 7b3547251e137368ffc17698ba06f63de9973b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:47 +0000
Subject: [PATCH 17/18] fix: the Heun step of the time evolution mixed the
 subgroups before and after the step

The corrector started from the density before the step but from the shares of
the subgroups after the predictor, so that injection was counted twice in the shares.
---
 agnpy/time_evolution/time_evolution.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 0ab08a6..3930968 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -328,17 +328,18 @@ class TimeEvolution:
                             total_injection_grouped, unit_time_interval_sec):
 
         # ======== stage 1: apply time evaluation ========
-        new_gm_bins, new_dens, subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
+        new_gm_bins, new_dens, new_subgroups_density = self._apply_time_eval(en_bins, density, subgroups_density,
                 en_changes_grouped * unit_time_interval_sec, total_injection_grouped * unit_time_interval_sec)
         dist = update_distribution(new_gm_bins, new_dens, self._blob)
 
         # ======== stage 2: for Heun method, recalculate bins ========
         if self._method.lower() == "heun":
-            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, subgroups_density)
+            en_chg_rates_recalced = recalc_new_rates(new_gm_bins, self._energy_change_functions, new_dens, new_subgroups_density)
             en_changes_grouped_recalced = sum_change_rates(en_chg_rates_recalced, new_gm_bins.shape, erg_per_s, self._subgroups)
             averaged_en_chg_rates_grouped = (en_changes_grouped + en_changes_grouped_recalced) / 2
             abs_en_chg_recalc = averaged_en_chg_rates_grouped * unit_time_interval_sec
-            new_gm_bins, new_dens, subgroups_density = (
+            # starting again from the state before the step, subgroups included
+            new_gm_bins, new_dens, new_subgroups_density = (
                 self._apply_time_eval(en_bins, density, subgroups_density, abs_en_chg_recalc,
                                 total_injection_grouped * unit_time_interval_sec))
             dist = update_distribution(new_gm_bins, new_dens, self._blob)
@@ -346,7 +347,7 @@ class TimeEvolution:
 
         # ======== stage 3: sort and merge bins if needed ========
         new_gm_bins, new_dens, sort_and_merge_mapping = self._sort_and_merge_bins(new_gm_bins, new_dens, dist)
-        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, subgroups_density)
+        subgroups_density = remap_subgroups_density(sort_and_merge_mapping, new_subgroups_density)
         final_mapping = sort_and_merge_mapping
 
         if self._gamma_bounds is not None:
-- 
2.43.0


From 78e6f73b38b6a84d68bb0473ce5cabadbc30830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:31 +0000
Subject: [PATCH 18/18] fix: initial shares for fewer groups than given left
 the other groups out

---
 agnpy/time_evolution/time_evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/agnpy/time_evolution/time_evolution.py b/agnpy/time_evolution/time_evolution.py
index 3930968..c8018de 100644
--- a/agnpy/time_evolution/time_evolution.py
+++ b/agnpy/time_evolution/time_evolution.py
@@ -188,6 +188,8 @@ class TimeEvolution:
             raise ValueError("subgroups_initial_density provided without initial_gamma_array")
         if subgroups_initial_density is not None and initial_gamma_array is not None and subgroups_initial_density.shape[1] != len(initial_gamma_array):
             raise ValueError("Incorrect shape for subgroups_initial_density")
+        if subgroups_initial_density is not None and subgroups_initial_density.shape[0] != len(subgroups):
+            raise ValueError("subgroups_initial_density should have one row per subgroup")
         self._distribution_change_callback = distribution_change_callback
 
     def _calculate_initial_values(self):
-- 
2.43.0

