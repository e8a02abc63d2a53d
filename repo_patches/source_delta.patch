From db293aa8c8f613e36f8402a55edaa5b586e81536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 01/11] fix: IMRPhenomXAS time and phase of coalescence
 sign/factor

The strain is A exp(+i Psi), so tc must enter as -2 pi f tc and phic as
+2 phic, as in IMRPhenomD, TaylorF2 and LAL (2 * phi0).
---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index b9b8c95..25ebb98 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1356,7 +1356,8 @@ def _gen_IMRPhenomXAS(
         + PI / 4.0
         + PI
     )
-    ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - theta_extrinsic[2]
+    # The strain is A * exp(+1j * Psi), so that h0 ~ exp(-2j * PI * f * tc + 2j * phic)
+    ext_phase_contrib = -2.0 * PI * f * theta_extrinsic[1] + 2.0 * theta_extrinsic[2]
     Psi = Psi + (linb * fM_s) + lina + phifRef - 2 * PI + ext_phase_contrib
 
     A = Amp(f, theta_intrinsic, amp_coeffs, D=theta_extrinsic[0])
-- 
2.43.0


From 5cf5645d431c548c58dc0ee0c2a8c07fd113bc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 02/11] fix: IMRPhenomPv2 time of coalescence

tc is in seconds: the time shift is exp(-2 pi i f tc), as for the other models.
---
 src/ripplegw/waveforms/IMRPhenomPv2.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index d103328..2a6f123 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -243,8 +243,7 @@ def gen_IMRPhenomPv2(
     # )
     t0 = jax.grad(phi_IIb)(f_RD) / (2 * jnp.pi)
     phase_corr = jnp.cos(2 * jnp.pi * fs * (t0)) - 1j * jnp.sin(2 * jnp.pi * fs * (t0))
-    M_s = (m1 + m2) * gt
-    phase_corr_tc = jnp.exp(-1j * fs * M_s * tc)
+    phase_corr_tc = jnp.exp(-2j * jnp.pi * fs * tc)
     hp *= phase_corr * phase_corr_tc
     hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 6912be2c15f78f57df5b969bcc93b861bdb80859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 03/11] fix: Planck taper is zero at its end point x = 1.2 y

---
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 1f45180..79541e1 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -39,7 +39,7 @@ def get_planck_taper(x: Array, y: float) -> Array:
         x < y,
         1.0,
         jnp.where(
-            x > yp,
+            x >= yp,
             0.0,
             1.0 - 1.0 / (jnp.exp((yp - y) / (x - y) + (yp - y) / (x - yp)) + 1.0),
         ),
-- 
2.43.0


From 84cbb4757a6d12c3de3d7a1aaba1e478ac432622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 04/11] fix: IMRPhenomD cutoff must not depend on the frequency
 grid

The cutoff was snapped to a neighbouring grid point, so that the strain at a
frequency depended on which other frequencies were evaluated: on a coarse grid
bins well below M f = 0.2 were zeroed, and on a grid starting above the cutoff
the index wrapped around to the last element and the strain was not zero.
---
 src/ripplegw/waveforms/IMRPhenomD.py           | 9 ++-------
 src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py | 4 +---
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index efcf84f..2bb9c53 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -494,9 +494,7 @@ def Amp(
     Amp_IIb = get_IIb_Amp(f * M_s, theta, coeffs, f_RD, f_damp)
 
     # And now we can combine them by multiplying by a set of heaviside functions
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Amp = (
         Amp_Ins * jnp.heaviside(f3 - f, 0.5)
         + jnp.heaviside(f - f3, 0.5) * Amp_IIa * jnp.heaviside(f4 - f, 0.5)
@@ -536,10 +534,7 @@ def _gen_IMRPhenomD(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
-    # fcut_true = f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 79541e1..7f0be7b 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -443,9 +443,7 @@ def gen_IMRPhenomD_NRTidalv2(
     Psi -= t0 * ((f * M_s) - Mf_ref) + Psi_ref
     ext_phase_contrib = 2.0 * PI * f * theta_extrinsic[1] - 2 * theta_extrinsic[2]
     Psi += ext_phase_contrib
-    fcut_above = lambda f: (fM_CUT / M_s)
-    fcut_below = lambda f: f[jnp.abs(f - (fM_CUT / M_s)).argmin() - 1]
-    fcut_true = jax.lax.cond((fM_CUT / M_s) > f[-1], fcut_above, fcut_below, f)
+    fcut_true = fM_CUT / M_s
     Psi = Psi * jnp.heaviside(fcut_true - f, 0.0) + 2.0 * PI * jnp.heaviside(
         f - fcut_true, 1.0
     )
-- 
2.43.0


From f94e7804a73382f9573a2f2998b7655742ec3542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 05/11] fix: NaN for (nearly) equal masses

Rounding can make the symmetric mass ratio computed from the component masses
slightly larger than 1/4, and the square roots of 1 - 4 eta were NaN: about one
in five equal-mass binaries had a NaN waveform. Clamp the radicand at zero.
---
 src/ripplegw/__init__.py                     | 19 ++++++++++---------
 src/ripplegw/waveforms/IMRPhenomD.py         |  2 +-
 src/ripplegw/waveforms/IMRPhenomD_utils.py   |  4 ++--
 src/ripplegw/waveforms/IMRPhenomPv2.py       |  2 +-
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py |  2 +-
 src/ripplegw/waveforms/IMRPhenomXAS.py       | 14 +++++++-------
 src/ripplegw/waveforms/IMRPhenomX_utils.py   |  6 +++---
 7 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index f80bbd6..d995ef1 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -32,7 +32,8 @@ def Mc_eta_to_ms(m):
     """
     Mchirp, eta = m
     M = Mchirp / (eta ** (3 / 5))
-    m2 = (M - jnp.sqrt(M**2 - 4 * M**2 * eta)) / 2
+    # rounding can push eta slightly above 1/4 for (nearly) equal masses
+    m2 = (M - jnp.sqrt(jnp.maximum(M**2 - 4 * M**2 * eta, 0))) / 2
     m1 = M - m2
     return m1, m2
 
@@ -84,7 +85,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         / 13
         * (
             (1 + 7 * eta - 31 * eta**2) * lambda_plus
-            + (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
+            + jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
         )
     )
 
@@ -92,7 +93,7 @@ def lambdas_to_lambda_tildes_from_q(params: Array):
         1
         / 2
         * (
-            (1 - 4 * eta) ** 0.5
+            jnp.maximum(1 - 4 * eta, 0) ** 0.5
             * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2)
             * lambda_plus
             + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta**2 + 3380 / 1319 * eta**3)
@@ -134,7 +135,7 @@ def lambdas_to_lambda_tildes(params: Array):
         / 13
         * (
             (1 + 7 * eta - 31 * eta**2) * lambda_plus
-            + (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
+            + jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (1 + 9 * eta - 11 * eta**2) * lambda_minus
         )
     )
 
@@ -142,7 +143,7 @@ def lambdas_to_lambda_tildes(params: Array):
         1
         / 2
         * (
-            (1 - 4 * eta) ** 0.5
+            jnp.maximum(1 - 4 * eta, 0) ** 0.5
             * (1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2)
             * lambda_plus
             + (1 - 15910 / 1319 * eta + 32850 / 1319 * eta**2 + 3380 / 1319 * eta**3)
@@ -183,8 +184,8 @@ def lambda_tildes_to_lambdas(params: Array):
 
     _, eta = ms_to_Mc_eta(jnp.array([mass_1, mass_2]))
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
-    coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
-    coefficient_3 = (1 - 4 * eta) ** 0.5 * (
+    coefficient_2 = jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
+    coefficient_3 = jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (
         1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
     )
     coefficient_4 = (
@@ -239,8 +240,8 @@ def lambda_tildes_to_lambdas_from_q(params: Array):
     eta = q / (1 + q) ** 2
 
     coefficient_1 = 1 + 7 * eta - 31 * eta**2
-    coefficient_2 = (1 - 4 * eta) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
-    coefficient_3 = (1 - 4 * eta) ** 0.5 * (
+    coefficient_2 = jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (1 + 9 * eta - 11 * eta**2)
+    coefficient_3 = jnp.maximum(1 - 4 * eta, 0) ** 0.5 * (
         1 - 13272 / 1319 * eta + 8944 / 1319 * eta**2
     )
     coefficient_4 = (
diff --git a/src/ripplegw/waveforms/IMRPhenomD.py b/src/ripplegw/waveforms/IMRPhenomD.py
index 2bb9c53..815300e 100644
--- a/src/ripplegw/waveforms/IMRPhenomD.py
+++ b/src/ripplegw/waveforms/IMRPhenomD.py
@@ -214,7 +214,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, coeffs: Array) -> Array:
     eta2 = eta * eta
     eta3 = eta * eta2
 
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     SetaPlus1 = 1.0 + Seta
 
     # Spin variables
diff --git a/src/ripplegw/waveforms/IMRPhenomD_utils.py b/src/ripplegw/waveforms/IMRPhenomD_utils.py
index 61a7ab2..2e35960 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_utils.py
@@ -38,7 +38,7 @@ def EradRational0815_s(eta, s):
 
 
 def EradRational0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
@@ -146,7 +146,7 @@ def get_coeffs(theta: Array) -> Array:
     # Definition of chiPN from lalsuite
     chi_s = (chi1 + chi2) / 2.0
     chi_a = (chi1 - chi2) / 2.0
-    seta = (1 - 4 * eta) ** (1 / 2)
+    seta = jnp.maximum(1 - 4 * eta, 0.0) ** (1 / 2)
     chiPN = chi_s * (1 - 76 * eta / 113) + seta * chi_a
 
     coeff = (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2.py b/src/ripplegw/waveforms/IMRPhenomPv2.py
index 2a6f123..e546ac3 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2.py
@@ -33,7 +33,7 @@ def PhenomPCoreTwistUp(
 
     # here it is used to be LAL_MTSUN_SI
     f = fHz * gt * M  # Frequency in geometric units
-    q = (1.0 + jnp.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+    q = (1.0 + jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0)) - 2.0 * eta) / (2.0 * eta)
     m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
     m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
     Sperp = chip * (
diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 42aac9a..378f42d 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -31,7 +31,7 @@ def ROTATEY(angle, x, y, z):
 
 
 def FinalSpin0815(eta, chi1, chi2):
-    Seta = jnp.sqrt(1.0 - 4.0 * eta)
+    Seta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     m1 = 0.5 * (1.0 + Seta)
     m2 = 0.5 * (1.0 - Seta)
     m1s = m1 * m1
diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 25ebb98..70d0cfb 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -25,7 +25,7 @@ def get_inspiral_phase(fM_s: Array, theta: Array, phase_coeffs: Array) -> Array:
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
     eta3 = eta2 * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -342,7 +342,7 @@ def get_intermediate_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -554,7 +554,7 @@ def get_mergerringdown_raw_phase(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
     chi_eff = mm1 * chi1 + mm2 * chi2
@@ -811,7 +811,7 @@ def get_inspiral_Amp(fM_s: Array, theta: Array, amp_coeffs: Array) -> Array:
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1018,7 +1018,7 @@ def get_intermediate_Amp(
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
     eta2 = eta * eta
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1212,7 +1212,7 @@ def get_mergerringdown_Amp(
     m2_s = m2 * gt
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
 
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
@@ -1331,7 +1331,7 @@ def _gen_IMRPhenomXAS(
 
     M_s = m1_s + m2_s
     eta = m1_s * m2_s / (M_s**2.0)
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
diff --git a/src/ripplegw/waveforms/IMRPhenomX_utils.py b/src/ripplegw/waveforms/IMRPhenomX_utils.py
index a8f8c48..2298c3f 100644
--- a/src/ripplegw/waveforms/IMRPhenomX_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomX_utils.py
@@ -20,7 +20,7 @@ def get_cutoff_fMs(m1, m2, chi1, chi2):
     # m1Sq = m1_s * m1_s
     # m2Sq = m2_s * m2_s
 
-    delta = jnp.sqrt(1.0 - 4.0 * eta_s)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta_s, 0.0))
     mm1 = 0.5 * (1.0 + delta)
     mm2 = 0.5 * (1.0 - delta)
 
@@ -432,7 +432,7 @@ def Eqspin_CV(EqSpin_coeffs, eta, S):
 
 def Uneqspin_CV(EqSpin_coeffs, eta, S, chia):
     chia2 = chia * chia
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     eta2 = eta * eta
     eta3 = eta2 * eta
     eta4 = eta3 * eta
@@ -522,7 +522,7 @@ def Amp_Eqspin_CV(EqSpin_coeffs, eta, S):
 
 
 def Amp_Uneqspin_CV(UneqSpin_coeffs, eta, S, chia):
-    delta = jnp.sqrt(1.0 - 4.0 * eta)
+    delta = jnp.sqrt(jnp.maximum(1.0 - 4.0 * eta, 0.0))
     return (
         chia
         * delta
-- 
2.43.0


From dcd251f0d3ac9b3a2ec14e3aed4deff34f8621a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 06/11] fix: NaN in IMRPhenomPv2 when J is along z or N is
 along J

The cosine of the angle can exceed one by rounding.
---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 378f42d..7b3a1d2 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -90,7 +90,7 @@ def convert_spins(
     J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
     J0 = jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-    thetaJ_sf = jnp.arccos(J0z_sf / J0)
+    thetaJ_sf = jnp.arccos(jnp.clip(J0z_sf / J0, -1.0, 1.0))
 
     phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
 
@@ -125,7 +125,7 @@ def convert_spins(
     tmp_x, tmp_y, tmp_z = ROTATEY(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
     tmp_x, tmp_y, tmp_z = ROTATEZ(kappa, tmp_x, tmp_y, tmp_z)
     Nx_Jf, Nz_Jf = tmp_x, tmp_z
-    thetaJN = jnp.arccos(Nz_Jf)
+    thetaJN = jnp.arccos(jnp.clip(Nz_Jf, -1.0, 1.0))
 
     # Finally, we need to redefine the polarizations:
     # PhenomP's polarizations are defined following Arun et al (arXiv:0810.5336)
-- 
2.43.0


From 08cba38b76efce8b5acc3f421bc2e91557fbf0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:36 +0000
Subject: [PATCH 07/11] fix: get_eff_pads off by one for spacings that are not
 exact in binary

---
 src/ripplegw/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ripplegw/__init__.py b/src/ripplegw/__init__.py
index d995ef1..87d410a 100644
--- a/src/ripplegw/__init__.py
+++ b/src/ripplegw/__init__.py
@@ -366,9 +366,10 @@ def get_eff_pads(fs: Array) -> Tuple[Array, Array]:
             "function will thus yield inaccurate results when used with fft/ifft."
         )
 
-    N = 2 * jnp.array(fs[-1] / df - 1).astype(int)
-    pad_low = jnp.zeros(jnp.array(fs[0] / df).astype(int))
-    pad_high = jnp.zeros(N - jnp.array(fs[-1] / df).astype(int))
+    # Round rather than truncate: the ratios are integers up to rounding error
+    N = 2 * jnp.round(fs[-1] / df - 1).astype(int)
+    pad_low = jnp.zeros(jnp.round(fs[0] / df).astype(int))
+    pad_high = jnp.zeros(N - jnp.round(fs[-1] / df).astype(int))
     return pad_low, pad_high
 
 
-- 
2.43.0


From 2c795fd708c35fa2442977dffb91a730403c058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:53 +0000
Subject: [PATCH 08/11] fix: NaN gradient of IMRPhenomXAS for large primary
 spin

Where gamma2 > 1 the square root in the branch not taken made the gradient
with respect to the masses and spins NaN.
---
 src/ripplegw/waveforms/IMRPhenomXAS.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomXAS.py b/src/ripplegw/waveforms/IMRPhenomXAS.py
index 70d0cfb..f96abce 100644
--- a/src/ripplegw/waveforms/IMRPhenomXAS.py
+++ b/src/ripplegw/waveforms/IMRPhenomXAS.py
@@ -1239,11 +1239,14 @@ def get_mergerringdown_Amp(
             amp_coeffs[5, amp_uneqspin_indx:], eta, StotR, chia
         )
     )
+    # Keep the radicand of the branch that is not taken positive: its gradient
+    # would be NaN, and jnp.where does not stop a NaN gradient
+    radicand = jnp.where(gamma2 < 1.0, 1.0 - gamma2 * gamma2, 1.0)
     fMs_AmpRDMin = jnp.where(
-        gamma2 <= 1.0,
+        gamma2 < 1.0,
         jnp.fabs(
             fMs_RD
-            + fMs_damp * gamma3 * (jnp.sqrt(1.0 - gamma2 * gamma2) - 1.0) / gamma2
+            + fMs_damp * gamma3 * (jnp.sqrt(radicand) - 1.0) / gamma2
         ),
         jnp.fabs(fMs_RD + fMs_damp * (-1.0) * gamma3 / gamma2),
     )
-- 
2.43.0


From f330e36f2bd26d8274cc451e817c0d711a0787fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:53 +0000
Subject: [PATCH 09/11] fix: derivative of the Planck taper with respect to
 frequency

The custom derivative rule silently dropped the dependence on the frequency.
---
 .../waveforms/IMRPhenomD_NRTidalv2.py         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
index 7f0be7b..ebe46f9 100644
--- a/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
+++ b/src/ripplegw/waveforms/IMRPhenomD_NRTidalv2.py
@@ -79,8 +79,25 @@ def get_planck_taper_der(x: Array, y: float):
     return tangent_out
 
 
+def get_planck_taper_der_x(x: Array, y: float):
+    """
+    Derivative of the Planck taper function with respect to the frequency. The
+    taper depends only on x / y, so this is -y / x times the derivative with
+    respect to y.
+
+    Args:
+        x (Array): Array of frequencies
+        y (float): Starting point of the Planck taper.
+
+    Returns:
+        Array: Array of derivative of Planck taper.
+    """
+    return -get_planck_taper_der(x, y) * y / x
+
+
 get_planck_taper.defjvps(
-    None, lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot
+    lambda x_dot, primal_out, x, y: get_planck_taper_der_x(x, y) * x_dot,
+    lambda y_dot, primal_out, x, y: get_planck_taper_der(x, y) * y_dot,
 )
 
 
-- 
2.43.0


From 46a4b5700807f34bb7bad89a211f317c0debb519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:06 +0000
Subject: [PATCH 10/11] fix: IMRPhenomPv2 lost the reference phase for (nearly)
 aligned spins

---
 src/ripplegw/waveforms/IMRPhenomPv2_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
index 7b3a1d2..1e98dc0 100644
--- a/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
+++ b/src/ripplegw/waveforms/IMRPhenomPv2_utils.py
@@ -88,11 +88,14 @@ def convert_spins(
     J0x_sf = m1_2 * s1x + m2_2 * s2x
     J0y_sf = m1_2 * s1y + m2_2 * s2y
     J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
-    J0 = jnp.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
-
-    thetaJ_sf = jnp.arccos(jnp.clip(J0z_sf / J0, -1.0, 1.0))
-
-    phiJ_sf = jnp.arctan2(J0y_sf, J0x_sf)
+    # Polar angles of J in the source frame. For (anti-)aligned spins the azimuth
+    # is undefined; as in LAL it is then taken to be that of the line of sight.
+    aligned = (jnp.abs(J0x_sf) < 1e-15) & (jnp.abs(J0y_sf) < 1e-15)
+    J0x_safe = jnp.where(aligned, 1.0, J0x_sf)
+    J0perp_sf = jnp.sqrt(J0x_safe * J0x_safe + J0y_sf * J0y_sf)
+    J0perp_sf = jnp.where(aligned, 0.0, J0perp_sf)
+    thetaJ_sf = jnp.arctan2(J0perp_sf, J0z_sf)
+    phiJ_sf = jnp.where(aligned, jnp.pi / 2 - phiRef, jnp.arctan2(J0y_sf, J0x_safe))
 
     phi_aligned = -phiJ_sf
 
-- 
2.43.0


From 08cd4a097b181a1b7b05ca52b3a786c88dccf0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:58 +0000
Subject: [PATCH 11/11] fix: NaN in noise curves between infinite table entries

---
 src/ripplegw/noise.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ripplegw/noise.py b/src/ripplegw/noise.py
index 3e883fc..987b168 100644
--- a/src/ripplegw/noise.py
+++ b/src/ripplegw/noise.py
@@ -78,10 +78,18 @@ def _load_noise(
     Sns = jnp.array(Sns)
     f_range = (fs[0], fs[-1])
 
-    return (
-        jax.jit(lambda f: jnp.interp(f, fs, Sns, left=jnp.inf, right=jnp.inf)),
-        f_range,
-    )
+    # Interpolating between infinite entries would give nan: interpolate the finite
+    # ones, and return inf between two entries at least one of which is infinite
+    is_inf = jnp.isinf(Sns)
+    Sns_finite = jnp.where(is_inf, 0.0, Sns)
+
+    @jax.jit
+    def Sn(f):
+        near_inf = jnp.interp(f, fs, is_inf.astype(fs.dtype)) > 0
+        Sns_interp = jnp.interp(f, fs, Sns_finite, left=jnp.inf, right=jnp.inf)
+        return jnp.where(near_inf, jnp.inf, Sns_interp)
+
+    return Sn, f_range
 
 
 Sn_aLIGO, f_range_aLIGO = _load_noise("aLIGO", asd=True)
-- 
2.43.0

