From 3efaf7955a9a9981169ee2eba4cf544e73199885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 01/34] fix: absmdl argument of TbCloudRTE selects the model
 instead of raising AttributeError

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 5ec702c..021bb6d 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -124,7 +124,7 @@ class TbCloudRTE(object):
         self.sice = np.zeros((1, self.nang))
 
         if absmdl:
-            self.init_absmdll(absmdl)
+            self.init_absmdl(absmdl)
 
     @property
     def satellite(self) -> bool:
-- 
2.43.0


From ee2729092d2bd9b87293a08c7b8ee45e843eaf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 02/34] fix: flip descending profiles (with ozone and clouds)
 and refuse non-monotonic ones

---
 pyrtlib/tb_spectrum.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 021bb6d..704957b 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -66,13 +66,17 @@ class TbCloudRTE(object):
         self.amu = amu
 
         dz = np.ediff1d(self.z)
-        if all(dz) > 0:
+        self._flipped = False
+        if np.all(dz > 0):
             pass
-        elif all(dz) < 0:
+        elif np.all(dz < 0):
+            self._flipped = True
             self.z = z[::-1]
             self.p = p[::-1]
             self.tk = t[::-1]
             self.rh = rh[::-1]
+            if o3n is not None:
+                self.o3n = o3n[::-1]
             print("Profile flipped up/douwn")
         else:
             raise SystemExit("ERROR: input profile seems incorrect. "
@@ -215,8 +219,9 @@ class TbCloudRTE(object):
                     if self.z[i] == self.cldh[1, j]:
                         self.endlev[j] = i
 
-            self.denice = denice
-            self.denliq = denliq
+            # cloud densities follow the orientation of the input profile
+            self.denice = denice[::-1] if self._flipped else denice
+            self.denliq = denliq[::-1] if self._flipped else denliq
         else:
             warnings.warn("It seems that TbCloudRTE.cloudy attribute is not set to True. "
                           "Sets it to True for running model in cloudy condition.")
-- 
2.43.0


From d57161022b49d93c09051cae0586e600618c403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 03/34] fix: do not shift the caller's height array in place

---
 pyrtlib/tb_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 704957b..1d40b9d 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -103,7 +103,7 @@ class TbCloudRTE(object):
 
         # convert height profile to (km above antenna height)
         self.z0 = self.z[0]
-        self.z -= self.z0
+        self.z = self.z - self.z0
 
         # Allocation
         self.sptaudry = np.zeros((self.nf, self.nang))
-- 
2.43.0


From 63c72ee5dd68ad357c24fb961fdd5ef594733020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 04/34] fix: execute() returns its own arrays and keeps no
 values of earlier executions

---
 pyrtlib/tb_spectrum.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 1d40b9d..58f09ef 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -105,7 +105,13 @@ class TbCloudRTE(object):
         self.z0 = self.z[0]
         self.z = self.z - self.z0
 
-        # Allocation
+        self._allocate()
+
+        if absmdl:
+            self.init_absmdl(absmdl)
+
+    def _allocate(self) -> None:
+        """Allocate the output arrays of one execution."""
         self.sptaudry = np.zeros((self.nf, self.nang))
         self.sptauwet = np.zeros((self.nf, self.nang))
         self.sptauliq = np.zeros((self.nf, self.nang))
@@ -127,9 +133,6 @@ class TbCloudRTE(object):
         self.sliq = np.zeros((1, self.nang))
         self.sice = np.zeros((1, self.nang))
 
-        if absmdl:
-            self.init_absmdl(absmdl)
-
     @property
     def satellite(self) -> bool:
         """If :code:`True` computes an upward-propagating brightness-temperature spectrum
@@ -311,6 +314,8 @@ class TbCloudRTE(object):
         """
 
         self._init_linelist()
+        # results already returned must not be overwritten by this execution
+        self._allocate()
 
         if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:
             warnings.warn(
-- 
2.43.0


From 1373bdcb788003b37d9c2ebc06a2cc3084502b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 05/34] fix: tbatm of upwelling simulations is the atmospheric
 emission, not zero

---
 pyrtlib/tb_spectrum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 58f09ef..92f4300 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -388,7 +388,8 @@ class TbCloudRTE(object):
                                                                                boftatm)
                 # assign output values
                 self.tbtotal[j, k] = RTEquation.bright(hvk, boftotl)
-                self.tbatm[j, k] = RTEquation.bright(hvk, boftatm[self.nl - 1])
+                self.tbatm[j, k] = RTEquation.bright(
+                    hvk, boftatm[0 if self._satellite else self.nl - 1])
                 self.tmr[j, k] = RTEquation.bright(hvk, boftmr)
 
         df = pd.DataFrame()
-- 
2.43.0


From b085df24f6435ea22c96a926d52382752c536c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 06/34] fix: integrated cloud density includes the top layer of
 the cloud

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index fd55cc1..c9c9dca 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -356,7 +356,7 @@ class RTEquation:
         ncld = len(lbase)
         scld = 0.0
         for i in range(0, ncld):
-            for j in range(int(lbase[i]) + 1, int(ltop[i])):
+            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):
                 scld += np.dot(ds[j],
                                (np.dot(0.5, (dencld[j] + dencld[j - 1]))))
 
-- 
2.43.0


From 6f35b6a829afa973e6ea8f16059dc631eeefed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 07/34] fix: saturation over ice in RTEquation.vapor

---
 pyrtlib/rt_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/rt_equation.py b/pyrtlib/rt_equation.py
index c9c9dca..e51e4eb 100644
--- a/pyrtlib/rt_equation.py
+++ b/pyrtlib/rt_equation.py
@@ -66,7 +66,7 @@ class RTEquation:
         if ice:
             # over ice if tk < 263.16
             indx = np.nonzero(t < 263.16)
-            y = 273.16 / t(indx)
+            y = 273.16 / t[indx]
             es[indx] = np.dot(-9.09718, (y - 1.0)) - np.dot(
                 3.56654, np.log10(y)) + np.dot(0.876793, (1.0 - (1.0 / y))) + np.log10(6.1071)
 
-- 
2.43.0


From 596508366487880cd1dcb5a03d006e3d4ac2eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 08/34] fix: swapped description of sliq and sice

---
 pyrtlib/tb_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 92f4300..85db0c4 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -301,11 +301,11 @@ class TbCloudRTE(object):
                 indexed by elevation angle
 
             sliq:
-                cloud ice density integrated along each ray path (cm);
+                cloud liquid density integrated along each ray path (cm);
                 indexed by elevation angle
 
             sice:
-                cloud liquid density integrated along each ray path (cm);
+                cloud ice density integrated along each ray path (cm);
                 indexed by elevation angle
 
         Returns:
-- 
2.43.0


From cc196783239aa7ca5f6db4168a3c7af3d0b43152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 09/34] fix: re-read the ozone line list at every execution, as
 for water vapour and oxygen

---
 pyrtlib/tb_spectrum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/tb_spectrum.py b/pyrtlib/tb_spectrum.py
index 85db0c4..d80079c 100644
--- a/pyrtlib/tb_spectrum.py
+++ b/pyrtlib/tb_spectrum.py
@@ -12,7 +12,7 @@ from typing import Dict, Tuple, Union, Optional
 import numpy as np
 import pandas as pd
 
-from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel
+from .absorption_model import O2AbsModel, H2OAbsModel, N2AbsModel, LiqAbsModel, O3AbsModel
 from .rt_equation import RTEquation
 
 
@@ -199,6 +199,9 @@ class TbCloudRTE(object):
     def _init_linelist(self):
         H2OAbsModel.set_ll()
         O2AbsModel.set_ll()
+        # ozone is optional: it is used only with a profile and a model
+        if isinstance(self.o3n, np.ndarray) and isinstance(O3AbsModel.model, str) and O3AbsModel.model:
+            O3AbsModel.set_ll()
 
     def init_cloudy(self, cldh: np.ndarray, denice: np.ndarray, denliq: np.ndarray) -> None:
         """Initialize cloudy conditions parameters.
-- 
2.43.0


From 6105c2065b2dbeb4f3e7d8784a32981428c5f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 10/34] fix: a perturbed oxygen run does not write into the
 caller's parameters

---
 pyrtlib/absorption_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index dab65a8..6d757b9 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -769,6 +769,7 @@ class O2AbsModel(AbsModel):
         if amu:
             self.o2ll.w2a = amu['w2a'].value
             # self.o2ll.apu = amu['APU'].value
+            self.o2ll.w300 = np.copy(self.o2ll.w300)
             self.o2ll.w300[0:38] = amu['O2gamma'].value[0:38]
             self.o2ll.w300[34:49] = amu['O2gamma_NL'].value[34:49]
             self.o2ll.wb300 = amu['WB300'].value
@@ -787,9 +788,9 @@ class O2AbsModel(AbsModel):
                 self.o2ll.dnu0 = amu['dnu0'].value
                 self.o2ll.dnu1 = amu['dnu1'].value
             else:
-                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y300 = np.copy(amu['Y300'].value)
                 self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]
-                self.o2ll.v = amu['O2_V'].value
+                self.o2ll.v = np.copy(amu['O2_V'].value)
                 self.o2ll.v[34:49] = amu['O2_V_NL'].value[34:49]
 
         # *** add the following lines *************************
-- 
2.43.0


From 25163ce21f97fa4965615e0585acacea07b84929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:45 +0000
Subject: [PATCH 11/34] fix: liquid absorption for the R18, R20SD, R21SD, R22
 and MWL24 models

---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index 6d757b9..d4e510b 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -163,7 +163,7 @@ class LiqAbsModel(AbsModel):
             fs = np.dot(39.8, fp)
             eps = (eps0 - eps1) / complex(1.0, freq / fp) + \
                 (eps1 - eps2) / complex(1.0, freq / fs) + eps2
-        elif LiqAbsModel.model in ['R17', 'R16', 'R19', 'R20', 'R19SD', 'R22SD', 'R23', 'R23SD', 'R24']:
+        elif LiqAbsModel.model in ['R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']:
             eps = dilec12(freq, temp)
         else:
             raise ValueError(
-- 
2.43.0


From b1c3d69efb64e31714b37eca294174c05437bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 12/34] fix: spectroscopic parameters of the models whose names
 do not sort by year

---
 pyrtlib/absorption_model.py               | 13 +++++++++----
 pyrtlib/uncertainty/absmod_uncertainty.py | 14 +++++++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index d4e510b..b2c51cf 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -454,7 +454,7 @@ class H2OAbsModel(AbsModel):
 
         """
         if amu:
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.cf = amu['con_Cf'].value
                 self.h2oll.cs = amu['con_Cs'].value
             else:
@@ -468,12 +468,12 @@ class H2OAbsModel(AbsModel):
             self.h2oll.w0s = amu['gamma_w'].value / 1000.0
             self.h2oll.x = amu['n_a'].value
             self.h2oll.xs = amu['n_w'].value
-            if H2OAbsModel.model > 'R17':
+            if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
                 self.h2oll.sh = amu['delta_a'].value / 1000.0
                 self.h2oll.shs = amu['delta_w'].value / 1000.0
                 self.h2oll.xh = amu['n_da'].value
                 self.h2oll.xhs = amu['n_dw'].value
-            else:
+            elif H2OAbsModel.model != 'R98':
                 self.h2oll.sr = amu['SR'].value
             self.h2oll.fl = amu['FL'].value
 
@@ -782,7 +782,12 @@ class O2AbsModel(AbsModel):
             self.o2ll.x = amu['X05'].value
             self.o2ll.snr = amu['Snr'].value
             self.o2ll.ns = amu['O2_nS'].value
-            if O2AbsModel.model > 'R19':
+            if O2AbsModel.model in ['R23', 'R24']:
+                self.o2ll.y300 = amu['Y300'].value
+                self.o2ll.y1 = amu['y1'].value
+                self.o2ll.dnu0 = amu['dnu0'].value
+                self.o2ll.dnu1 = amu['dnu1'].value
+            elif O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
                 self.o2ll.y0 = amu['y0'].value
                 self.o2ll.y1 = amu['y1'].value
                 self.o2ll.dnu0 = amu['dnu0'].value
diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 362b28c..f9e3cc0 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -124,7 +124,7 @@ class SpectroscopicParameter:
 
             "wv_nS": SpectroscopicParameter(value=.0, uncer=.0, name='Intensity temperature-dependence exponent'),
         }
-        if H2OAbsModel.model > 'R17':
+        if H2OAbsModel.model not in ['R98', 'R03', 'R16', 'R17']:
             h2o_sp_ = {
                 "con_Cf_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=1, uncer=.0, units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
@@ -135,9 +135,10 @@ class SpectroscopicParameter:
             }
         else:
             h2o_sp_ = {
-                "SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio'),
                 "con_Cf_factr": SpectroscopicParameter(value=1.11, uncer=np.sqrt(0.098 ** 2 + 0.03 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''),
                 "con_Cs_factr": SpectroscopicParameter(value=0.79, uncer=np.sqrt(0.17 ** 2 + 0.06 ** 2), units='unitless', refer='Turner et al., TGRSS, 2009', name=''), }
+            if H2OAbsModel.model != 'R98':
+                h2o_sp_["SR"] = SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift to width ratio')
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
@@ -172,7 +173,14 @@ class SpectroscopicParameter:
             "O2_nS": SpectroscopicParameter(value=2.0, uncer=.0, units='unitless',  name='Intensity temperature-dependence exponent'),
             "w2a": SpectroscopicParameter(value=1.2, uncer=.0, units='unitless', name='Water-to-air broadening ratio'),
         }
-        if O2AbsModel.model > 'R19':
+        if O2AbsModel.model in ['R23', 'R24']:
+            o2_sp_ = {
+                "Y300": SpectroscopicParameter(value=ll.y300, uncer=np.zeros(len(ll.f)), units='1/bar == 1/1e5Pa =~ 1/atm', name='Line mixing coefficients (single lines)'),
+                "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
+                "dnu0": SpectroscopicParameter(value=ll.dnu0, uncer=.0, name=''),
+                "dnu1": SpectroscopicParameter(value=ll.dnu1, uncer=.0, name=''),
+            }
+        elif O2AbsModel.model not in ['R98', 'R03', 'R17', 'R18', 'R19', 'R19SD']:
             o2_sp_ = {
                 "y0": SpectroscopicParameter(value=ll.y0, uncer=.0, name=''),
                 "y1": SpectroscopicParameter(value=ll.y1, uncer=.0, name=''),
-- 
2.43.0


From 2da8b3bd3544a541d2a43b536782c9331db89ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 13/34] fix: spectroscopic parameters share no arrays with the
 line lists nor with each other

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index f9e3cc0..7d90cd5 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -31,6 +31,11 @@ from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, O3AbsModel
 #     open(os.path.join(PATH, "tbd", "PR_ext.csv"), "rb"), delimiter=",")
 
 
+def _detached(parameters: Dict) -> Dict:
+    """Parameters sharing no array with the line list nor with each other."""
+    return {name: deepcopy(parameter) for name, parameter in parameters.items()}
+
+
 @dataclass
 class SpectroscopicParameter:
     """Absorption model uncertainties for the spectroscopic parameters
@@ -142,7 +147,7 @@ class SpectroscopicParameter:
 
         h2o_sp = {**h2o_sp, **h2o_sp_}
 
-        return h2o_sp
+        return _detached(h2o_sp)
 
     @staticmethod
     def oxygen_parameters(model: str) -> Dict:
@@ -196,7 +201,7 @@ class SpectroscopicParameter:
             }
         o2_sp = {**o2_sp, **o2_sp_}
 
-        return o2_sp
+        return _detached(o2_sp)
 
     @staticmethod
     def ozono_parameters(model: str) -> Dict:
@@ -222,7 +227,7 @@ class SpectroscopicParameter:
             "O3_SR": SpectroscopicParameter(value=ll.sr, uncer=np.zeros(len(ll.fl)), units='unitless', name='Shift-to-width ratio'),
         }
 
-        return o3_sp
+        return _detached(o3_sp)
 
     @staticmethod
     def set_parameters(SP: dict) -> None:
-- 
2.43.0


From d46d3e9b2f18962390aa40b18ab07b2e30e252d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 14/34] fix: a scalar uncertainty perturbs only the requested
 index of an array parameter

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 7d90cd5..9e50cec 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -365,15 +365,19 @@ class AbsModUncertainty:
             uncer = amu_copy[param[i]].uncer
             if mode == 'max':
                 # new_value[param_index] = new_value[param_index] + uncer[param_index]
-                if isinstance(new_value, float) or isinstance(uncer, float):
+                if not isinstance(new_value, np.ndarray):
                     amu_copy[param[i]].value = new_value + uncer
+                elif not isinstance(uncer, np.ndarray):
+                    amu_copy[param[i]].value[param_index] = new_value[param_index] + uncer
                 else:
                     amu_copy[param[i]].value[param_index] = new_value[param_index] + \
                         uncer[param_index]
             elif mode == 'min':
                 # new_value[param_index] = new_value[param_index] - uncer[param_index]
-                if isinstance(new_value, float) or isinstance(uncer, float):
+                if not isinstance(new_value, np.ndarray):
                     amu_copy[param[i]].value = new_value - uncer
+                elif not isinstance(uncer, np.ndarray):
+                    amu_copy[param[i]].value[param_index] = new_value[param_index] - uncer
                 else:
                     amu_copy[param[i]].value[param_index] = new_value[param_index] - \
                         uncer[param_index]
-- 
2.43.0


From 45533476a0e61f6479cb4635e12e5e976f0a8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 15/34] fix: profile extrapolation of profiles reaching 50 km,
 and no memory of earlier profiles

---
 pyrtlib/climatology/extrapolation.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index e185918..ab21fb7 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -313,32 +313,31 @@ class ProfileExtrapolation:
 
         if np.max(z) < 50:
             h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))
-            idx = np.where(self._height > np.max(h_km))
-            self._height = np.append(h_km, self._height[idx])
         else:
-            self._height = np.append(z, self._height[idx])
+            h_km = z
+        # self._height is the reference grid: it must not keep the levels of this profile
+        height = np.append(h_km, self._height[self._height > np.max(h_km)])
 
         season = self._get_season(lat, month)
-        idx = np.where(self._height > np.max(z))
+        idx = np.where(height > np.max(z))
 
         p, t, rh = q
 
         if season != 'standard':
-            tt = self.temperature(lat, self._height, season)
-            pp = self.pressure(lat, self._height, season)
-            wvd = self.water_vapour_density(lat, self._height, season)
+            tt = self.temperature(lat, height, season)
+            pp = self.pressure(lat, height, season)
+            wvd = self.water_vapour_density(lat, height, season)
         else:
-            tt = self.instance.standard_temperature(self._height)
-            pp = self.instance.standard_pressure(self._height)
-            wvd = self.instance.standard_water_vapour_density(
-                self._height)
+            tt = self.instance.standard_temperature(height)
+            pp = self.instance.standard_pressure(height)
+            wvd = self.instance.standard_water_vapour_density(height)
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
         _rh = rho2rh(wvd, temp, pres)[0]
         rh = np.append(rh, _rh[idx])
 
-        return self._height, pres, temp, rh
+        return height, pres, temp, rh
 
 
 class _ITU835_6():
-- 
2.43.0


From a46fe8696a20df2c908b8faac14c76adbf240fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 16/34] fix: extrapolated relative humidity is a fraction, as
 the measured one

---
 pyrtlib/climatology/extrapolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index ab21fb7..d1409a0 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -334,7 +334,8 @@ class ProfileExtrapolation:
 
         pres = np.append(p, pp[idx])
         temp = np.append(t, tt[idx])
-        _rh = rho2rh(wvd, temp, pres)[0]
+        # rho2rh returns percent
+        _rh = rho2rh(wvd, temp, pres)[0] / 100
         rh = np.append(rh, _rh[idx])
 
         return height, pres, temp, rh
-- 
2.43.0


From 872fe98ea4aec8c861fc63e5ea99a9a764f31832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 17/34] fix: channel frequencies and normalisation of plotted
 weighting functions

---
 pyrtlib/weighting_functions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 9100e7a..3900c88 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -230,8 +230,11 @@ class WeightingFunctions(object):
 
         if self.bandpass is not None:
             wgt = self._mean_channel(wgt, self.bandpass)
-            self.frequencies = np.array(
-                [np.mean(self.frequencies[i:i+j]) for i, j in enumerate(self.bandpass)])
+            ends = np.cumsum(self.bandpass)
+            frequencies = np.array(
+                [np.mean(self.frequencies[i-j:i]) for i, j in zip(ends, self.bandpass)])
+        else:
+            frequencies = self.frequencies
 
         # if yaxis == 'p':
         #     y = self.pinterp[:-1]
@@ -243,17 +246,17 @@ class WeightingFunctions(object):
         units = 'km'
 
         normalize = np.max(
-            wgt, axis=1) if normalized else np.ones(wgt.shape[1])
+            wgt, axis=1) if normalized else np.ones(wgt.shape[0])
 
         plt.figure(figsize=kwargs.get('figsize', (5, 10)),
                    dpi=kwargs.get('dpi', 150))
-        for i, frequenciy in enumerate(self.frequencies):
+        for i, frequenciy in enumerate(frequencies):
             if self.satellite:
                 line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None
                 plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,
                          label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')
             else:
-                plt.plot(wgt[i, :], self.zinterp,
+                plt.plot(wgt[i, :]/normalize[i], self.zinterp,
                          label=f'{frequenciy:.2f} GHz')
 
         # if yaxis == 'p':
-- 
2.43.0


From c68951e283893a140865b3dbc09f289224fef5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 18/34] fix: unit of the relative humidity returned by
 ERA5Reanalysis.read_data

---
 pyrtlib/apiwebservices/erafive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/erafive.py b/pyrtlib/apiwebservices/erafive.py
index 7826882..2e4e5b4 100644
--- a/pyrtlib/apiwebservices/erafive.py
+++ b/pyrtlib/apiwebservices/erafive.py
@@ -56,7 +56,7 @@ class ERA5Reanalysis:
                 {'p': 'hPa',
                 'z': 'km',
                 't': 'K',
-                'rh': '%',
+                'rh': 'decimal',
                 'clwc': 'kg kg-1',
                 'ciwc': 'kg kg-1',
                 'crwc': 'kg kg-1',
@@ -107,7 +107,7 @@ class ERA5Reanalysis:
         df.attrs['units'] = {'p': 'hPa',
                              'z': 'km',
                              't': 'K',
-                             'rh': '%',
+                             'rh': 'decimal',
                              'clwc': 'kg kg-1',
                              'ciwc': 'kg kg-1',
                              'crwc': 'kg kg-1',
-- 
2.43.0


From e90ccbe19b65ef00208431bd1e990b35d7a599aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 19/34] fix: upper sideband of MWS channel 9 at 57.290344 +/-
 0.217 GHz

---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index 2e6682a..aa25498 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -995,7 +995,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
         freq = np.array([23.8, 31.4, 50.3, 52.8,
                         53.246-0.08, 53.246+0.08, 53.596-0.115, 53.596+0.115, 53.948-0.081, 53.948+0.081,
                         54.4, 54.94, 55.5, cf57,
-                        cf57-0.217, cf57-0.217,
+                        cf57-0.217, cf57+0.217,
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-- 
2.43.0


From 171b132cc74d6cc778501d3d9c58d9f0f6557c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 20/34] fix: refuse identifiers of gases and atmospheres that
 do not exist

---
 pyrtlib/climatology/atmospheric_profiles.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyrtlib/climatology/atmospheric_profiles.py b/pyrtlib/climatology/atmospheric_profiles.py
index 9163bc5..81b37ca 100644
--- a/pyrtlib/climatology/atmospheric_profiles.py
+++ b/pyrtlib/climatology/atmospheric_profiles.py
@@ -208,6 +208,8 @@ class AtmosphericProfiles:
             # Latitude (deg)
             # 45.5397
             mtx = np.loadtxt(os.path.join(path, "us_standard.dat"))
+        else:
+            raise ValueError("Unknown atmosphere")
 
         # Altitude (km)
         a = mtx[:, 0]
@@ -267,6 +269,8 @@ class AtmosphericProfiles:
         # CONSTITUENT PROFILES FOR THE MINOR ABSORBING ATMOSPHERIC GASES
         #
         # MINGAS
+        if not 0 <= gas_minor < mtx.shape[1]:
+            raise ValueError("Unknown minor gas ID")
         g = mtx[:, gas_minor]
 
         return g
@@ -335,6 +339,8 @@ class AtmosphericProfiles:
         #  11 - 30   ATMOS SS: LinExLogMix
         #  30 - 75   ATMOS SS: ConsAt 31.5 value
         #  75 -120   1.0E-15
+        if not 0 <= gas_trace < mtx.shape[1]:
+            raise ValueError("Unknown trace gas ID")
         g = mtx[:, gas_trace]
 
         return g
-- 
2.43.0


From cad810d6c151061036af1f7d65f5eab76a44f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 21/34] fix: Wyoming soundings with missing values are not
 shifted to the wrong columns

---
 pyrtlib/apiwebservices/wyomingupperair.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyrtlib/apiwebservices/wyomingupperair.py b/pyrtlib/apiwebservices/wyomingupperair.py
index 7dbc72c..d3022eb 100644
--- a/pyrtlib/apiwebservices/wyomingupperair.py
+++ b/pyrtlib/apiwebservices/wyomingupperair.py
@@ -142,9 +142,8 @@ class WyomingUpperAir(HTTPEndPoint):
         title = soup.find_all('h2')[0].contents[0]
         col_names = ['pressure', 'height', 'temperature', 'dewpoint', 'rh', 'mixr']
         # df = pd.read_fwf(tabular_data, skiprows=5, usecols=[0, 1, 2, 3, 4, 5], names=col_names, infer_rows=300)
-        # change to read_csv function as some data column (e.g. height) couls be corrupted
-        # To be further investigated in order to catch the issue
-        df = pd.read_csv(tabular_data, header=None, skiprows=5, delim_whitespace=True, usecols=[0, 1, 2, 3, 4, 5], names=col_names)
+        # columns are 7 characters wide and blank when missing
+        df = pd.read_fwf(tabular_data, header=None, skiprows=5, widths=[7] * 6, names=col_names)
         # Drop any rows with all NaN values for T, Td, winds
         df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)
 
-- 
2.43.0


From bc2dc997b32f0ab835acb2ec71ac18fe23d3342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 22/34] fix: file name and format of the IGRA derived soundings

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 13be2f6..5e8d5d8 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -107,7 +107,7 @@ class IGRAUpperAir(HTTPEndPoint):
 
         if derived:
             igra2.folder = 'derived-por/'
-            igra2.suffix = igra2.suffix + '-drvd.txt'
+            igra2.suffix = '-drvd.txt'
 
         if isinstance(time, datetime):
             igra2.begin_date = time
-- 
2.43.0


From 0f151044148624bd8dbad8ae7c6898d28e3dd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 23/34] fix: release time (HHMM) of IGRA soundings

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e8d5d8..1c95ec4 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -253,7 +253,7 @@ class IGRAUpperAir(HTTPEndPoint):
         def _ctime(strformat: str = 'MMMSS'):
             """Return a function converting a string from MMMSS or HHMM to seconds."""
             def _ctime_strformat(val):
-                time = val.strip().zfill(5)
+                time = val.strip().zfill(len(strformat))
 
                 if int(time) < 0:
                     return np.nan
-- 
2.43.0


From 8e6a3d1699898570e5a10d251f8476c2528063f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 24/34] fix: soundings without hour inside a requested IGRA
 period

---
 pyrtlib/apiwebservices/igra2.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 1c95ec4..a4eeab2 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -201,7 +201,8 @@ class IGRAUpperAir(HTTPEndPoint):
                     headers.append(idx)
                     num_lev.append(int(line[32:36]))
                     dates.append(date)
-                if date > self.end_date:
+                # soundings without hour (99) count from midnight but follow those with hour
+                if datetime(year, month, day) > self.end_date:
                     break
 
         if len(dates) == 0:
@@ -210,16 +211,14 @@ class IGRAUpperAir(HTTPEndPoint):
             raise ValueError('No dates match selection.')
 
         # Compress body of data into a string
-        begin_idx = min(headers)
-        end_idx = max(headers) + num_lev[-1]
-
-        # Make a boolean vector that selects only list indices within the time range
+        # Make boolean vectors that select only list indices within the time range
         selector = np.zeros(len(lines), dtype=bool)
-        selector[begin_idx:end_idx + 1] = True
-        selector[headers] = False
+        for idx, levels in zip(headers, num_lev):
+            selector[idx + 1:idx + levels + 1] = True
         body = ''.join(itertools.compress(lines, selector))
 
-        selector[begin_idx:end_idx + 1] = ~selector[begin_idx:end_idx + 1]
+        selector[:] = False
+        selector[headers] = True
         header = ''.join(itertools.compress(lines, selector))
 
         # expand date vector to match length of the body dataframe.
-- 
2.43.0


From 0450c30e72d7af5d7891145daf6e757c5c76ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 25/34] fix: missing values of the integer columns of IGRA
 soundings

---
 pyrtlib/apiwebservices/igra2.py | 41 +++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index a4eeab2..5e4541a 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -240,6 +240,13 @@ class IGRAUpperAir(HTTPEndPoint):
                     return float(val) / 10**power
             return _cdec_power
 
+        def _cint(val):
+            """Convert string to integer, missing values to NaN."""
+            if val in ['-9999', '-8888', '-99999']:
+                return np.nan
+            else:
+                return int(val)
+
         def _cflag(val):
             """Replace alphabetic flags A and B with numeric."""
             if val == 'A':
@@ -295,8 +302,8 @@ class IGRAUpperAir(HTTPEndPoint):
                              (120, 127), (128, 135), (137, 143), (144, 151)]
 
             conv_body = {'pressure': _cdec(power=2),
-                         'reported_height': int,
-                         'calculated_height': int,
+                         'reported_height': _cint,
+                         'calculated_height': _cint,
                          'temperature': _cdec(),
                          'temperature_gradient': _cdec(),
                          'potential_temperature': _cdec(),
@@ -312,7 +319,7 @@ class IGRAUpperAir(HTTPEndPoint):
                          'u_wind_gradient': _cdec(),
                          'v_wind': _cdec(),
                          'v_wind_gradient': _cdec(),
-                         'refractive_index': int}
+                         'refractive_index': _cint}
 
             names_header = ['site_id', 'year', 'month', 'day', 'hour', 'release_time',
                             'number_levels', 'precipitable_water', 'inv_pressure',
@@ -340,24 +347,24 @@ class IGRAUpperAir(HTTPEndPoint):
                            'number_levels': int,
                            'precipitable_water': _cdec(power=2),
                            'inv_pressure': _cdec(power=2),
-                           'inv_height': int,
+                           'inv_height': _cint,
                            'inv_strength': _cdec(),
                            'mixed_layer_pressure': _cdec(power=2),
-                           'mixed_layer_height': int,
+                           'mixed_layer_height': _cint,
                            'freezing_point_pressure': _cdec(power=2),
-                           'freezing_point_height': int,
+                           'freezing_point_height': _cint,
                            'lcl_pressure': _cdec(power=2),
-                           'lcl_height': int,
+                           'lcl_height': _cint,
                            'lfc_pressure': _cdec(power=2),
-                           'lfc_height': int,
+                           'lfc_height': _cint,
                            'lnb_pressure': _cdec(power=2),
-                           'lnb_height': int,
-                           'lifted_index': int,
-                           'showalter_index': int,
-                           'k_index': int,
-                           'total_totals_index': int,
-                           'cape': int,
-                           'convective_inhibition': int}
+                           'lnb_height': _cint,
+                           'lifted_index': _cint,
+                           'showalter_index': _cint,
+                           'k_index': _cint,
+                           'total_totals_index': _cint,
+                           'cape': _cint,
+                           'convective_inhibition': _cint}
 
             na_vals = ['-99999']
 
@@ -376,13 +383,13 @@ class IGRAUpperAir(HTTPEndPoint):
                          'etime': _ctime(strformat='MMMSS'),
                          'pressure': _cdec(power=2),
                          'pflag': _cflag,
-                         'height': int,
+                         'height': _cint,
                          'zflag': _cflag,
                          'temperature': _cdec(),
                          'tflag': _cflag,
                          'relative_humidity': _cdec(),
                          'dewpoint_depression': _cdec(),
-                         'direction': int,
+                         'direction': _cint,
                          'speed': _cdec()}
 
             names_header = ['site_id', 'year', 'month', 'day', 'hour', 'release_time',
-- 
2.43.0


From 3567ed1115505271affc719db5770e9518894935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 26/34] fix: last digit of the inversion pressure of IGRA
 derived soundings

---
 pyrtlib/apiwebservices/igra2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 5e4541a..9a7cd0c 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -331,7 +331,7 @@ class IGRAUpperAir(HTTPEndPoint):
                             'cape', 'convective_inhibition']
 
             colspecs_header = [(1, 12), (13, 17), (18, 20), (21, 23), (24, 26),
-                               (27, 31), (31, 36), (37, 43), (43, 48), (49, 55),
+                               (27, 31), (31, 36), (37, 43), (43, 49), (49, 55),
                                (55, 61), (61, 67), (67, 73), (73, 79), (79, 85),
                                (85, 91), (91, 97), (97,
                                                     103), (103, 109), (109, 115),
-- 
2.43.0


From 4f6723668ea617f39a425b303c212cb2764c1628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 27/34] fix: coordinates of IGRA stations within 0.1 degrees of
 the equator or Greenwich

---
 pyrtlib/apiwebservices/igra2.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 9a7cd0c..88f8431 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -281,10 +281,7 @@ class IGRAUpperAir(HTTPEndPoint):
             return _ctime_strformat
 
         def _clatlon(x):
-            n = len(x)
-            deg = x[0:n - 4]
-            dec = x[n - 4:]
-            return float(deg + '.' + dec)
+            return float(x) / 10**4
 
         if self.suffix == '-drvd.txt':
             names_body = ['pressure', 'reported_height', 'calculated_height',
-- 
2.43.0


From f1ab6d24b777f1a77662e3b2ba6832f89e95846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 28/34] fix: swapped description of the beg2021 and derived
 arguments

---
 pyrtlib/apiwebservices/igra2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/apiwebservices/igra2.py b/pyrtlib/apiwebservices/igra2.py
index 88f8431..27ded5a 100644
--- a/pyrtlib/apiwebservices/igra2.py
+++ b/pyrtlib/apiwebservices/igra2.py
@@ -65,9 +65,9 @@ class IGRAUpperAir(HTTPEndPoint):
             time (datetime): The date and time of the desired observation. If list of two times is given,
                 dataframes for all dates within the two dates will be returned.
             site_id (str): 11-character IGRA2 station identifier.
-            beg2021 (Optional[bool], optional): If True retrieve files of derived sounding parameters. Defaults to False.
-            derived (Optional[bool], optional): If True retrieve files only contain soundings from the current
+            beg2021 (Optional[bool], optional): If True retrieve files only contain soundings from the current
                 (or current and previous) year. Defaults to False.
+            derived (Optional[bool], optional): If True retrieve files of derived sounding parameters. Defaults to False.
 
         Returns:
             Tuple[pandas.DataFrame, pandas.DataFrame]: A dataframe containing the data and header information.
-- 
2.43.0


From 0b4ba4f23d694a3e4492915d220a1a5884615619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 29/34] fix: temperature exponent of a perturbed R23SD/R24 self
 continuum

---
 pyrtlib/absorption_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/absorption_model.py b/pyrtlib/absorption_model.py
index b2c51cf..26a48be 100644
--- a/pyrtlib/absorption_model.py
+++ b/pyrtlib/absorption_model.py
@@ -534,7 +534,7 @@ class H2OAbsModel(AbsModel):
                 if self.h2oll.cs > 0:
 
                     # npp_cs = np.zeros(1)
-                    con = self.h2oll.cs * ti * self.h2oll.xcs
+                    con = self.h2oll.cs * ti ** self.h2oll.xcs
                     # for i in len(frq):
                     npp_cs = con
                 else:
-- 
2.43.0


From 8380244f64912d2920197a195b294d6d5bed0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 30/34] fix: standard atmosphere between 84.852 geopotential km
 and 86 km

---
 pyrtlib/climatology/extrapolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrtlib/climatology/extrapolation.py b/pyrtlib/climatology/extrapolation.py
index d1409a0..8bc552d 100644
--- a/pyrtlib/climatology/extrapolation.py
+++ b/pyrtlib/climatology/extrapolation.py
@@ -379,7 +379,7 @@ class _ITU835_6():
                                            270.65,
                                            np.where(np.logical_and(51 < h_p, h_p <= 71),
                                                     270.65 - 2.8 * (h_p - 51),
-                                                    np.where(np.logical_and(71 < h_p, h_p <= 84.852),
+                                                    np.where(np.logical_and(71 < h_p, h < 86),
                                                     214.65 - 2.0 * (h_p - 71),
                                                     np.where(np.logical_and(86 <= h, h <= 91),
                                                              186.8673,
@@ -417,7 +417,7 @@ class _ITU835_6():
                                                     np.where(np.logical_and(51 < h_p, h_p <= 71),
                                                              0.6694167 * (270.65 / (270.65 - 2.8 *
                                                                                     (h_p - 51)))**(-34.1632 / 2.8),
-                                                             np.where(np.logical_and(71 < h_p, h_p <= 84.852),
+                                                             np.where(np.logical_and(71 < h_p, h < 86),
                                                                       0.03956649 *
                                                                       (214.65 / (214.65 - 2.0 *
                                                                        (h_p - 71)))**(-34.1632 / 2.0),
-- 
2.43.0


From bd50271b4032eaac3d9010fa45d6fb64df7a8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 31/34] fix: propagate uncertainties at zero operands and
 negative bases

---
 pyrtlib/uncertainty/absmod_uncertainty.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyrtlib/uncertainty/absmod_uncertainty.py b/pyrtlib/uncertainty/absmod_uncertainty.py
index 9e50cec..d3873fa 100644
--- a/pyrtlib/uncertainty/absmod_uncertainty.py
+++ b/pyrtlib/uncertainty/absmod_uncertainty.py
@@ -282,7 +282,7 @@ class AbsModUncertainty:
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
         | :math:`\displaystyle f={\frac {A}{B}}`     | :math:`\displaystyle \sigma _{f}\approx \left|f\right|{\sqrt {\left({\frac {\sigma _{A}}{A}}\right)^{2}+\left({\frac {\sigma _{B}}{B}}\right)^{2}-2{\frac {\sigma _{AB}}{AB}}}}`   |
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
-        | :math:`\displaystyle f=A^{a}`              | :math:`\displaystyle \sigma _{f}=|a|A^{a-1}\sigma _{A}`                                                                                                                            |
+        | :math:`\displaystyle f=A^{a}`              | :math:`\displaystyle \sigma _{f}=|aA^{a-1}|\sigma _{A}`                                                                                                                            |
         +--------------------------------------------+------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------+
 
         Args:
@@ -315,16 +315,14 @@ class AbsModUncertainty:
             sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 - 2 * a * b * sAB)
         elif fun == 'A*B':
             F = A * B
-            # sF = np.sqrt( B**2*sA**2 + A**2*sB**2 + 2*A*B*sAB )
-            sF = np.abs(A * B) * np.sqrt((sA / A) ** 2 +
-                                         (sB / B) ** 2 + 2 * sAB / (A * B))
+            # the relative form above is undefined where A or B is zero
+            sF = np.sqrt((B * sA) ** 2 + (A * sB) ** 2 + 2 * A * B * sAB)
         elif fun == 'A/B':
             F = A / B
-            sF = np.abs(A / B) * np.sqrt((sA / A) ** 2 +
-                                         (sB / B) ** 2 - 2 * sAB / (A * B))
+            sF = np.sqrt((B * sA) ** 2 + (A * sB) ** 2 - 2 * A * B * sAB) / B ** 2
         elif fun == 'A^a':
             F = A ** a
-            sF = np.abs(a) * A ** (a - 1) * sA
+            sF = np.abs(a * A ** (a - 1)) * sA
         else:
             raise ValueError("[utils] fun argument is mandatory")
 
-- 
2.43.0


From e4e734b59e4e49c1f9148da4a1fc68d4ac8d45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 32/34] fix: plot weighting functions with height limits
 between grid levels

---
 pyrtlib/weighting_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index 3900c88..f899826 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -282,8 +282,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
@@ -368,8 +367,7 @@ class WeightingFunctions(object):
         ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == np.min(self.zinterp))],
                            self.pinterp[np.where(self.zinterp == np.max(self.zinterp))]))
         if ylim:
-            ax_twinx.set_ylim((self.pinterp[np.where(self.zinterp == ylim[0])],
-                               self.pinterp[np.where(self.zinterp == ylim[1])]))
+            ax_twinx.set_ylim(np.interp(ylim, self.zinterp, self.pinterp))
         ax_twinx.set_yscale('log')
         ax_twinx.set_ylabel('Pressure [$hPa$]')
         ax_twinx.tick_params(axis='both', which='both', direction='in')
-- 
2.43.0


From 8edd81949b7383a1447526fc48d0fa8456cfa8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 33/34] fix: weighting functions of profiles given from the top
 down

---
 pyrtlib/weighting_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrtlib/weighting_functions.py b/pyrtlib/weighting_functions.py
index f899826..e3c508f 100644
--- a/pyrtlib/weighting_functions.py
+++ b/pyrtlib/weighting_functions.py
@@ -54,6 +54,9 @@ class WeightingFunctions(object):
 
         self.zinterp = np.arange(
             0, np.max(z)+value_prof_interpolation, value_prof_interpolation)
+        # the profiles have to be ordered from the bottom up to be interpolated
+        up = np.argsort(z)
+        z, p, t, rh = (np.asarray(v)[up] for v in (z, p, t, rh))
         self.pinterp = np.interp(self.zinterp, z, p)
         self.tinterp = np.interp(self.zinterp, z, t)
         self.rhinterp = np.interp(self.zinterp, z, rh)
-- 
2.43.0


From 5f32a87eafb3c1d7a8a9dcb76bd44e4be1ad6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 34/34] fix: MWS channel 14 at 57.290344 +/- 0.3222 +/- 0.0045
 GHz

The four bands of the channel were put at +/- 0.045 GHz, next to those of
channel 11; the published offset is 0.0045 GHz, as on AMSU-A.
---
 pyrtlib/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrtlib/utils.py b/pyrtlib/utils.py
index aa25498..d92ff2c 100644
--- a/pyrtlib/utils.py
+++ b/pyrtlib/utils.py
@@ -999,7 +999,7 @@ def get_frequencies_sat(instrument: str) -> np.ndarray:
                         cf57-0.3222-0.048, cf57-0.3222+0.048, cf57+0.3222-0.048, cf57+0.3222+0.048,
                         cf57-0.3222-0.022, cf57-0.3222+0.022, cf57+0.3222-0.022, cf57+0.3222+0.022,
                         cf57-0.3222-0.010, cf57-0.3222+0.010, cf57+0.3222-0.010, cf57+0.3222+0.010,
-                        cf57-0.3222-0.045, cf57-0.3222+0.045, cf57+0.3222-0.045, cf57+0.3222+0.045,
+                        cf57-0.3222-0.0045, cf57-0.3222+0.0045, cf57+0.3222-0.0045, cf57+0.3222+0.0045,
                         89,
                         cf165-0.725, cf165+0.725,
                         cf-7.0, cf-4.5, cf-3.0, cf-1.8, cf-1.0, cf+1.0, cf+1.8, cf+3.0, cf+4.5, cf+7.0,
-- 
2.43.0

