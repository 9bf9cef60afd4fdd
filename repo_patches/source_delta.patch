From edbd03f361a61174f6d927a22a43b5ee16d0530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 01/58] fix: scipy simulateDSM backend failed to store states
 of order 2 or more

With store_xn=True the (order, 1) state could not be broadcast into a
column of xn.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e64399f..f39a5ba 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -155,7 +155,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
         if store_xn:
             # Save the next state
-            xn[:, i] = x0
+            xn[:, i] = x0[:, 0]
         if store_xmax:
             # Keep track of the state maxima
             xmax = np.max((np.abs(x0), xmax), 0)
-- 
2.43.0


From 9c984cf265e699325dad8ddff9685fa43bf6cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:58 +0000
Subject: [PATCH 02/58] fix: scipy simulateDSM backend failed on multiple
 inputs

The input sample of a modulator with two or more inputs was handled as a
row vector, so that it could not be combined with the state and with the
quantizer output.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index f39a5ba..7192e45 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -148,11 +148,13 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     for i in range(N):
         # I guess the coefficients in A, B, C, D should be real...
-        y0 = np.real(np.dot(C, x0) + np.dot(D1, u[:, i]))
+        u0 = u[:, i:i+1]
+        y0 = np.real(np.dot(C, x0) + np.dot(D1, u0))
         if store_y:
-            y[:, i] = y0
-        v[:, i] = ds_quantize(y0, nlev)
-        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u[:, i], v[:, i])))
+            y[:, i] = y0[:, 0]
+        v0 = ds_quantize(y0, nlev)
+        v[:, i] = v0[:, 0]
+        x0 = np.dot(A, x0) + np.dot(B, np.vstack((u0, v0)))
         if store_xn:
             # Save the next state
             xn[:, i] = x0[:, 0]
-- 
2.43.0


From 1b7adb3ba6063fa2525e7c407d40ddc6300cde7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 03/58] fix: simulateDSM rejected multiple quantizers

nlev is documented to be possibly a vector, with one entry per quantizer,
but it was always reshaped to a single entry.  Modulators specified by
their NTF have a single input and a single quantizer: anything else is
now reported as an incorrect specification rather than read out of bounds.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 6 ++++--
 src/pydsm/delsig/_simulateDSM_scipy.py       | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 6 ++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 031d0b0..7aebda2 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -48,10 +48,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.array(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
@@ -81,6 +81,8 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 7192e45..01796dd 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -73,7 +73,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
          PyDsmSlowPathWarning)
 
     # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(1)
+    nlev = np.asarray(nlev).reshape(-1)
 
     # Make sure that input is a matrix
     u = np.asarray(u)
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 405be58..869d6cc 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -55,10 +55,10 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
     # Make sure that nlev is a 1D int array
     cdef np.ndarray c_nlev
     try:
-        c_nlev = np.asarray(nlev, dtype=np.int32)
+        c_nlev = np.array(nlev, dtype=np.int32, order='C')
         if c_nlev.ndim > 1:
             raise TypeError()
-        c_nlev=c_nlev.reshape(1)
+        c_nlev=c_nlev.reshape(-1)
     except (ValueError, TypeError):
          raise ValueError(\
             "Invalid argument: nlev must be convertible into a 1D int array")
@@ -88,6 +88,8 @@ def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
             ntf_k=float(arg2[2])
             if ntf_z.ndim !=1 or ntf_p.ndim != 1:
                 raise TypeError()
+            if nu != 1 or nq != 1:
+                raise TypeError()
             form = 2
             order = ntf_z.shape[0]
         else:
-- 
2.43.0


From e492f6e1c0543bb4a4b09d4b3f30b6d080bcd94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 04/58] fix: compiled simulateDSM backends accept any
 array_like input

The input is documented as array_like, but lists were rejected with a
TypeError.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 7aebda2..635c412 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -42,7 +42,7 @@ cdef extern from "cblas.h":
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 869d6cc..3217dfe 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -49,7 +49,7 @@ cdef dcopy_ptr dcopy=<dcopy_ptr>Capsule_AsVoidPtr(
 
 include '_simulateDSM_helper.pxi'
 
-def simulateDSM(np.ndarray u, arg2, nlev=2, x0=0,
+def simulateDSM(u, arg2, nlev=2, x0=0,
                 int store_xn=False, int store_xmax=False, int store_y=False):
 
     # Make sure that nlev is a 1D int array
-- 
2.43.0


From 777d1cb72fae6568477f52821d532d2714f63b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:31 +0000
Subject: [PATCH 05/58] fix: scipy simulateDSM backend validates its arguments
 as documented

Malformed arguments lead to IndexError, TypeError or unspecific errors
rather than to the documented ValueErrors raised by the other backends.
---
 src/pydsm/delsig/_simulateDSM_scipy.py | 71 ++++++++++++++++++--------
 1 file changed, 50 insertions(+), 21 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index 01796dd..f2fd0df 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -72,37 +72,66 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     warn('Running the slow version of simulateDSM.',
          PyDsmSlowPathWarning)
 
-    # Make sure that nlev is an array
-    nlev = np.asarray(nlev).reshape(-1)
+    # Make sure that nlev is a 1D int array
+    try:
+        nlev = np.asarray(nlev, dtype=np.int32)
+        if nlev.ndim > 1:
+            raise TypeError()
+        nlev = nlev.reshape(-1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: nlev must be convertible into a 1D int array")
 
     # Make sure that input is a matrix
-    u = np.asarray(u)
-    if u.ndim == 1:
-        u = u.reshape(1, -1)
+    try:
+        u = np.asarray(u, dtype=np.float64)
+        if u.ndim > 2:
+            raise TypeError()
+        if u.ndim == 1:
+            u = u.reshape(1, -1)
+    except (ValueError, TypeError):
+        raise ValueError(
+            "Invalid argument: u must be convertible into a 2D float array")
 
     nu = u.shape[0]
     nq = np.size(nlev)
 
-    if type(arg2) == tuple and len(arg2) == 3:
-        # Assume ntf in zpk form
-        (ntf_z, ntf_p, ntf_k) = arg2
-        form = 2
-        order = len(ntf_z)
-    else:
-        # Assume ABCD form
-        ABCD = np.asarray(arg2)
-        if ABCD.shape[1] == nu+ABCD.shape[0]:
-            # ABCD dimensions OK
+    try:
+        if type(arg2) == tuple and len(arg2) == 3:
+            # Assume ntf in zpk form
+            ntf_z = np.asarray(arg2[0], dtype=np.complex128)
+            ntf_p = np.asarray(arg2[1], dtype=np.complex128)
+            if ntf_z.ndim != 1 or ntf_p.ndim != 1:
+                raise TypeError()
+            if nu != 1 or nq != 1:
+                raise TypeError()
+            form = 2
+            order = ntf_z.shape[0]
+        else:
+            # Assume ABCD form
+            ABCD = np.asarray(arg2, dtype=np.float64)
+            if ABCD.ndim != 2:
+                raise TypeError()
+            if ABCD.shape[1] != nu+ABCD.shape[0]:
+                raise TypeError()
             form = 1
             order = ABCD.shape[0]-nq
-        else:
-            raise ValueError('Incorrect modulator specification')
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect modulator specification')
 
     # Assure that the state is a column vector
-    if np.isscalar(x0) and x0 == 0:
-        x0 = np.zeros((order, 1))
-    else:
-        x0 = np.array(x0, dtype=float).reshape(-1, 1)
+    try:
+        if np.isscalar(x0) and x0 == 0:
+            x0 = np.zeros((order, 1))
+        else:
+            x0 = np.array(x0, dtype=float)
+            if x0.ndim < 1 or x0.ndim > 2:
+                raise TypeError()
+            x0 = x0.reshape(-1, 1)
+            if x0.shape[0] != order:
+                raise TypeError()
+    except (ValueError, TypeError):
+        raise ValueError('Incorrect initial condition specification')
 
     if form == 1:
         A = ABCD[0:order, 0:order]
-- 
2.43.0


From 67bfbb4a8ab303964d8ccf701e49fc55700751f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 06/58] fix: final state of first order modulators rejected as
 initial state

The final state of a first order modulator is delivered as a 0-d array,
that could not be passed back as the initial state to continue a
simulation.
---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy.py       | 2 +-
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index 635c412..ee650e9 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -104,7 +104,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index f2fd0df..e15834c 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -125,7 +125,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             x0 = np.zeros((order, 1))
         else:
             x0 = np.array(x0, dtype=float)
-            if x0.ndim < 1 or x0.ndim > 2:
+            if x0.ndim > 2:
                 raise TypeError()
             x0 = x0.reshape(-1, 1)
             if x0.shape[0] != order:
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 3217dfe..35c06c5 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -111,7 +111,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
             c_x0 = np.zeros((order, 1), dtype=np.float64)
         else:
             c_x0 = np.array(x0, dtype=np.float64, order='C')
-            if c_x0.ndim < 1 or c_x0.ndim > 2:
+            if c_x0.ndim > 2:
                 raise TypeError()
             c_x0=c_x0.reshape(-1, 1)
             if c_x0.shape[0]!=order:
-- 
2.43.0


From adeeec3dfa77515200262102bbedd77e4f94707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 07/58] fix: idtft_hermitian ignored its own default options

---
 src/pydsm/ft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 23a6f08..4cf5bf5 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -239,7 +239,8 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         For the meaning of the integrator parameters.
     """
     # Manage optional parameters
-    opts = digested_options(options, idtft.default_options, [], ['quad_opts'])
+    opts = digested_options(options, idtft_hermitian.default_options,
+                            [], ['quad_opts'])
     # Do the computation
     if np.isscalar(tt):
         return _idtft_hermitian(Ff, tt, fs, **opts['quad_opts'])
-- 
2.43.0


From ad2a74c2d530fb6675ea2f2007c39f9ab3b3b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 08/58] fix: ntf_hybrid_weighting ignored its own default
 options for the optimizers

The options of ntf_fir_from_q0 were used in place of them. The scs_opts
defaults are brought to the values that were used so far.
---
 .../NTFdesign/weighting/_fir_weighting.py      | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 700986b..c4c5de7 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -573,17 +573,17 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
                 'picos_opts': {}}
     if opts2['modeler'] == 'cvxpy':
         opts2.update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxpy_opts'], False))
         if opts2['cvxpy_opts']['solver'] == 'cvxopt':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts2['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
         elif opts2['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
-                options, ntf_fir_from_q0.default_options,
+                options, ntf_hybrid_weighting.default_options,
                 [], ['scs_opts'], False)['scs_opts'])
         opts2['cvxpy_opts'].pop('override_kktsolver')
         dig_opts['cvxpy_opts'].update(opts2['cvxpy_opts'])
@@ -591,13 +591,13 @@ def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'cvxpy_old':
         dig_opts['cvxpy_tdr_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_cvxpy_tdr import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
     elif opts2['modeler'] == 'picos':
         dig_opts['picos_opts'].update(digested_options(
-            options, ntf_fir_from_q0.default_options,
+            options, ntf_hybrid_weighting.default_options,
             [], ['cvxopt_opts'], False)['cvxopt_opts'])
         from ._fir_weighting_picos import (
             ntf_fir_from_digested as _ntf_fir_from_digested)
@@ -641,11 +641,13 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                         'abstol': 1e-7,
                                                         'reltol': 1e-6,
                                                         'feastol': 1e-6},
-                                        'scs_opts': {'max_iters': 2500,
-                                                     'eps': 1e-3,
+                                        'scs_opts': {'max_iters': 250000,
+                                                     'eps': 1e-10,
                                                      'alpha': 1.8,
                                                      'normalize': True,
-                                                     'use_indirect': False},
+                                                     'use_indirect': False,
+                                                     'acceleration_lookback':
+                                                     0},
                                         'show_progress': True,
                                         'fix_pos': True}
 ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
-- 
2.43.0


From 4163abdb00f763837104388275e8f811d036aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 09/58] fix: default options of different functions shared the
 same dictionaries

Changing an entry in place, as documented, altered other functions too.
---
 src/pydsm/NTFdesign/filter_based.py             | 9 +++++----
 src/pydsm/NTFdesign/psychoacoustic.py           | 3 ++-
 src/pydsm/NTFdesign/weighting/_fir_weighting.py | 9 ++++++---
 src/pydsm/ft.py                                 | 3 ++-
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 11a969c..94e57b6 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -47,6 +47,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 from .merit_factors import quantization_noise_gain as _quantization_noise_gain
 from .legacy import (quantization_noise_gain_by_conv as
                      _quantization_noise_gain_by_conv,
@@ -131,7 +132,7 @@ def quantization_noise_gain(NTF, H, H_type='zpk', **options):
     return _quantization_noise_gain(NTF, w, **opts)
 
 quantization_noise_gain.default_options = \
-    _quantization_noise_gain.default_options.copy()
+    deepcopy(_quantization_noise_gain.default_options)
 
 
 def quantization_noise_gain_by_conv(NTF, H, H_type='zpk', db=80):
@@ -213,7 +214,7 @@ def q0_from_filter(P, H, H_type='zpk', **options):
         raise ValueError("Incorrect filter type specification")
     return q0
 
-q0_from_filter.default_options = q0_weighting.default_options.copy()
+q0_from_filter.default_options = deepcopy(q0_weighting.default_options)
 
 
 def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
@@ -301,6 +302,6 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
 synthesize_ntf_from_filter.default_options = \
-    q0_from_filter.default_options.copy()
+    deepcopy(q0_from_filter.default_options)
 synthesize_ntf_from_filter.default_options.update(
-    ntf_fir_from_q0.default_options)
+    deepcopy(ntf_fir_from_q0.default_options))
diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 0f4ae5a..1ae8265 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -52,6 +52,7 @@ Deprecated functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
@@ -293,7 +294,7 @@ def ntf_fir_audio_weighting(
     return ntf_fir_weighting(order, w, H_inf, normalize, **options)
 
 ntf_fir_audio_weighting.default_options = \
-    ntf_fir_weighting.default_options.copy()
+    deepcopy(ntf_fir_weighting.default_options)
 
 
 # Following part is deprecated
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index c4c5de7..3d943cb 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -35,6 +35,7 @@ The optimization is practiced in two steps:
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 from ...ft import idtft_hermitian
 from ...delsig import evalTF, padr
@@ -442,8 +443,9 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
 
-ntf_fir_weighting.default_options = q0_weighting.default_options.copy()
-ntf_fir_weighting.default_options.update(ntf_fir_from_q0.default_options)
+ntf_fir_weighting.default_options = deepcopy(q0_weighting.default_options)
+ntf_fir_weighting.default_options.update(
+    deepcopy(ntf_fir_from_q0.default_options))
 
 
 def ntf_hybrid_weighting(order, w, H_inf=1.5, poles=[],
@@ -650,7 +652,8 @@ ntf_hybrid_weighting.default_options = {"modeler": "cvxpy_old",
                                                      0},
                                         'show_progress': True,
                                         'fix_pos': True}
-ntf_hybrid_weighting.default_options.update(q0_weighting.default_options)
+ntf_hybrid_weighting.default_options.update(
+    deepcopy(q0_weighting.default_options))
 
 
 # Following part is deprecated
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 4cf5bf5..456b087 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -41,6 +41,7 @@ Functions
 
 from __future__ import division, print_function
 
+from copy import deepcopy
 import numpy as np
 import scipy as sp
 __import__("scipy.fftpack")
@@ -248,4 +249,4 @@ def idtft_hermitian(Ff, tt, fs=1, **options):
         return np.asarray([_idtft_hermitian(Ff, t, fs, **opts['quad_opts'])
                            for t in tt])
 
-idtft_hermitian.default_options = idtft.default_options.copy()
+idtft_hermitian.default_options = deepcopy(idtft.default_options)
-- 
2.43.0


From c848459de070b8843ae5635e09a5fec112b14a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 10/58] fix: synthesize_ntf_from_filter dropped its default
 quad_opts

Passing some quad_opts discarded the function's defaults for the others.
---
 src/pydsm/NTFdesign/filter_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/filter_based.py b/src/pydsm/NTFdesign/filter_based.py
index 94e57b6..ea6773e 100644
--- a/src/pydsm/NTFdesign/filter_based.py
+++ b/src/pydsm/NTFdesign/filter_based.py
@@ -293,7 +293,7 @@ def synthesize_ntf_from_filter(order, H, H_type='zpk', H_inf=1.5,
     # Manage optional parameters
     opts1 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
-                             ['quad_opts'], [], False)
+                             [], ['quad_opts'], False)
     opts2 = digested_options(options,
                              synthesize_ntf_from_filter.default_options,
                              ['show_progress'], ['cvxopt_opts'])
-- 
2.43.0


From fa6a91e5013ccc9c4341d3dbce6a992aa4c33455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:06 +0000
Subject: [PATCH 11/58] fix: ntf_fir_audio_weighting ignored its own default
 options

---
 src/pydsm/NTFdesign/psychoacoustic.py         |  7 ++-
 .../NTFdesign/weighting/_fir_weighting.py     | 56 ++++++++++---------
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index 1ae8265..f2cd4b2 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -58,6 +58,7 @@ from .delsig import synthesizeNTF
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
+from .weighting._fir_weighting import _digested_weighting_options
 from warnings import warn
 from ..exceptions import PyDsmDeprecationWarning
 
@@ -291,7 +292,11 @@ def ntf_fir_audio_weighting(
         w = audio_weighting(fx) if fx <= audio_band else 0
         return max(w, ma)
 
-    return ntf_fir_weighting(order, w, H_inf, normalize, **options)
+    # Manage optional parameters
+    opts1, opts2 = _digested_weighting_options(
+        options, ntf_fir_audio_weighting.default_options)
+    opts1.update(opts2)
+    return ntf_fir_weighting(order, w, H_inf, normalize, **opts1)
 
 ntf_fir_audio_weighting.default_options = \
     deepcopy(ntf_fir_weighting.default_options)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting.py b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
index 3d943cb..1054dac 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting.py
@@ -298,6 +298,35 @@ ntf_fir_from_q0.default_options = {"modeler": "cvxpy_old",
                                    'fix_pos': True}
 
 
+def _digested_weighting_options(options, defaults):
+    """
+    Validate the options of the functions designing FIR NTFs from a weighting
+
+    Returns the options for the evaluation of the weighting and those for
+    the optimization, both taken from ``defaults`` where not in ``options``.
+    """
+    opts1 = digested_options(options, defaults, [], ['quad_opts'], False)
+    opts2 = digested_options(
+        options, defaults, ['show_progress', 'fix_pos', 'modeler'], [], False)
+    if opts2['modeler'] == 'cvxpy':
+        opts2.update(digested_options(
+            options, defaults, [], ['cvxpy_opts'], False))
+        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
+            opts2.update(digested_options(
+                options, defaults, [], ['cvxopt_opts'], False))
+        elif opts2['cvxpy_opts']['solver'] == 'scs':
+            opts2.update(digested_options(
+                options, defaults, [], ['scs_opts'], False))
+    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
+            opts2.update(digested_options(
+                options, defaults, [], ['cvxopt_opts'], False))
+    else:
+        raise ValueError('Unsupported modeling backend {}'.format(
+            opts2['modeler']))
+    digested_options(options, {})
+    return opts1, opts2
+
+
 def ntf_fir_weighting(order, w, H_inf=1.5,
                       normalize="auto", **options):
     u"""Synthesize FIR NTF based on a noise weighting function or a filter.
@@ -414,31 +443,8 @@ def ntf_fir_weighting(order, w, H_inf=1.5,
     scipy.integrate.quad : for the meaning of the integrator parameters
     """
     # Manage optional parameters
-    opts1 = digested_options(options, ntf_fir_weighting.default_options,
-                             [], ['quad_opts'], False)
-    opts2 = digested_options(
-        options, ntf_fir_weighting.default_options,
-        ['show_progress', 'fix_pos', 'modeler'], [], False)
-    if opts2['modeler'] == 'cvxpy':
-        opts2.update(digested_options(
-            options, ntf_fir_weighting.default_options,
-            [], ['cvxpy_opts'], False))
-        if opts2['cvxpy_opts']['solver'] == 'cvxopt':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-        elif opts2['cvxpy_opts']['solver'] == 'scs':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['scs_opts'], False))
-    elif opts2['modeler'] == 'cvxpy_old' or opts2['modeler'] == 'picos':
-            opts2.update(digested_options(
-                options, ntf_fir_weighting.default_options,
-                [], ['cvxopt_opts'], False))
-    else:
-        raise ValueError('Unsupported modeling backend {}'.format(
-            opts2['modeler']))
-    digested_options(options, {})
+    opts1, opts2 = _digested_weighting_options(
+        options, ntf_fir_weighting.default_options)
     # Do the computation
     q0 = q0_weighting(order, w, **opts1)
     return ntf_fir_from_q0(q0, H_inf, normalize, **opts2)
-- 
2.43.0


From d3514d87c724b150ca17d88e8fef652da21ebef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:51 +0000
Subject: [PATCH 12/58] fix: feasibility tolerance ignored by the picos modeler

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py       | 2 ++
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 754cdf3..47770a9 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -69,6 +69,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
+    opts['picos_opts']['rel_prim_fsb_tol']=opts['picos_opts']['feastol']
+    opts['picos_opts']['rel_dual_fsb_tol']=opts['picos_opts']['feastol']
     del opts['picos_opts']['feastol']
 
     # State space representation of NTF
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 229ad75..1227536 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -37,6 +37,8 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     del opts['picos_opts']['abstol']
     opts['picos_opts']['rel_ipm_opt_tol']=opts['picos_opts']['reltol']
     del opts['picos_opts']['reltol']
+    opts['picos_opts']['rel_prim_fsb_tol']=opts['picos_opts']['feastol']
+    opts['picos_opts']['rel_dual_fsb_tol']=opts['picos_opts']['feastol']
     del opts['picos_opts']['feastol']
     # Do the computation
     order = int(np.size(Qs, 0)-1)
-- 
2.43.0


From 8966f2b1614e6a1ef9ae65f0b3ee52d59b55a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 13/58] fix: ds_quantize failed on scalars and on a scalar
 number of levels

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index e15834c..d9f38cc 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -224,6 +224,9 @@ def ds_quantize(y, n):
     This definition gives the same step height for both mid-riser and
     mid-tread quantizers.
     """
+    n = np.reshape(n, -1)
+    shape = np.shape(y)
+    y = np.reshape(y, (n.size, -1))
     v = np.empty_like(y)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
@@ -231,5 +234,5 @@ def ds_quantize(y, n):
         else:
             v[qi] = 2*np.floor(0.5*(y[qi]+1))
         L = n[qi]-1
-        v[qi, 0] = np.max((np.min((v[qi, 0], L)), -L))
-    return v
+        v[qi] = np.clip(v[qi], -L, L)
+    return v.reshape(shape)[()]
-- 
2.43.0


From d7cf87d6db2724c2b42ee21be1a415284a402baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:58 +0000
Subject: [PATCH 14/58] fix: cplxpair failed on integers, did not pair values
 with the same real part, lost imaginary parts

---
 src/pydsm/relab.py | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index d24c8d5..7acb452 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -262,33 +262,21 @@ def cplxpair(x, tol=None, dim=None):
         x_real = np.sort(np.real(x[real_mask]))
         x_cplx = np.sort(x[np.logical_not(real_mask)])
         if x_cplx.size == 0:
-            return x_real
-        if (x_cplx.size % 2) != 0:
+            return x_real.astype(x.dtype)
+        # Output should contain "perfect" pairs. Hence, keep entries
+        # with positive imaginary parts and use conjugate for pair
+        x_pos = x_cplx[np.imag(x_cplx) > 0]
+        x_neg = np.conj(x_cplx[np.imag(x_cplx) < 0])
+        if x_pos.size != x_neg.size:
             raise ValueError('Complex numbers cannot be paired')
-        if np.any(np.real(x_cplx[1::2])-np.real(x_cplx[0::2]) >
-                  tol*np.abs(x_cplx[0::2])):
-            raise ValueError('Complex numbers cannot be paired')
-        start = 0
-        while start < x_cplx.size:
-            sim_len = next((i for i, v in enumerate(x_cplx[start+1:]) if
-                           (np.abs(np.real(v)-np.real(x_cplx[start])) >
-                            tol*np.abs(v))), x_cplx.size-start-1)+1
-            if (sim_len % 2) != 0:
-                sim_len -= 1
-            # At this point, sim_len elements with identical real part
-            # have been identified.
-            sub_x = x_cplx[start:start+sim_len]
-            srt = np.argsort(np.imag(sub_x))
-            sub_x = sub_x[srt]
-            if np.any(np.abs(np.imag(sub_x)+np.imag(sub_x[::-1])) >
-                      tol*np.abs(sub_x)):
+        for i, v in enumerate(x_pos):
+            j = np.argmin(np.abs(x_neg-v))
+            d = x_neg[j]-v
+            if max(np.abs(np.real(d)), np.abs(np.imag(d))) > tol*np.abs(v):
                 raise ValueError('Complex numbers cannot be paired')
-            # Output should contain "perfect" pairs. Hence, keep entries
-            # with positive imaginary parts amd use conjugate for pair
-            x_cplx[start:start+sim_len] = np.concatenate(
-                (np.conj(sub_x[:sim_len//2-1:-1]),
-                 sub_x[:sim_len//2-1:-1]))
-            start += sim_len
+            x_neg = np.delete(x_neg, j)
+            x_cplx[2*i] = np.conj(v)
+            x_cplx[2*i+1] = v
         return np.concatenate((x_cplx, x_real))
 
     x = np.atleast_1d(x)
@@ -300,5 +288,5 @@ def cplxpair(x, tol=None, dim=None):
         try:
             tol = 100*eps(x.dtype)
         except:
-            tol = 100*eps(np.float)
+            tol = 100*eps(float)
     return np.apply_along_axis(cplxpair_vec, dim, x, tol)
-- 
2.43.0


From 68a932a7c7ee54d437f950bcdd5676ff91568208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 15/58] fix: eps was not the distance to the next floating
 point number

---
 src/pydsm/relab.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 7acb452..4809991 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -77,15 +77,12 @@ def eps(x=1.):
     """
 
     def _eps(xi):
-        return np.finfo(xi).eps * np.abs(xi)
+        return np.spacing(np.abs(xi))
     if isinstance(x, (type, np.dtype)):
         return np.finfo(x).eps
     elif np.isscalar(x):
         return _eps(x)
-    x = np.asarray(x)
-    d = np.empty_like(x)
-    d.flat = [_eps(xi) for xi in x.flat]
-    return d
+    return _eps(np.asarray(x))
 
 
 def db(x, signal_type='voltage', R=1):
-- 
2.43.0


From 46549f71b10f3be6bb6feec881b334d22d6da766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 16/58] fix: synthesizeChebyshevNTF failed on bandpass
 modulators

---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 3a63fc8..58c77af 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -144,7 +144,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         if f0 == 0:
             z, p, k = cheby2(order, x, 1./osr, 'high', output='zpk')
         else:
-            z, p, k = cheby2(order/2, x, 2*f1f2, 'stop',
+            z, p, k = cheby2(order//2, x, 2*np.asarray(f1f2), 'stop',
                              output='zpk')
         f = 1./k - H_inf
         # print (x, f)
-- 
2.43.0


From 32468395337270bbc3933ce67ea2ca390920a315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 17/58] fix: synthesizeChebyshevNTF missed H_inf when its
 search left the bracket

---
 src/pydsm/delsig/_synthesizeChebyshevNTF.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeChebyshevNTF.py b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
index 58c77af..51d1c0e 100644
--- a/src/pydsm/delsig/_synthesizeChebyshevNTF.py
+++ b/src/pydsm/delsig/_synthesizeChebyshevNTF.py
@@ -121,7 +121,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
     xtol = 1e-6
     # Initial guess for x
     x = 60.
-    itn_limit = 10
+    itn_limit = 100
     converged = False
     f_p = 0.
 
@@ -146,7 +146,7 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             z, p, k = cheby2(order//2, x, 2*np.asarray(f1f2), 'stop',
                              output='zpk')
-        f = 1./k - H_inf
+        f = np.log(1./k/H_inf)
         # print (x, f)
         if f > 0:
             # x is too big
@@ -160,15 +160,18 @@ def synthesizeChebyshevNTF(order=3, osr=64, opt=0, H_inf=1.5, f0=0.0):
         else:
             # Normal iteration
             df = f - f_p
-            if np.abs(df) < ftol:
+            if np.abs(f) < ftol:
                 converged = True
                 break
-            dx = -f * dx/df
+            dx = -f * dx/df if df != 0 else np.inf
         if converged:
             break
         x_p = x
         f_p = f
-        x = np.max((x_min, np.min((x+dx, x_max))))
+        x = x + dx
+        if not x_min < x < x_max:
+            # Fall back to bisection
+            x = (x_min+x_max)/2
         dx = x - x_p
         if np.abs(dx) < xtol:
             break
-- 
2.43.0


From 4a69c95cad71c11670f85991af462bcc072d27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 18/58] fix: optimized zeros for order 10 were those for order
 8

---
 src/pydsm/delsig/_ds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_ds.py b/src/pydsm/delsig/_ds.py
index 5158045..adb4d98 100644
--- a/src/pydsm/delsig/_ds.py
+++ b/src/pydsm/delsig/_ds.py
@@ -188,8 +188,8 @@ def ds_optzeros(n, opt=1):
                                    0.9681602])
         elif n == 10:
             if opt == 1:
-                optZeros = np.asarray([0.1834370913, 0.5255334458,
-                                       0.7966668433, 0.9602899327])
+                optZeros = np.asarray([0.14887434, 0.43339539, 0.67940957,
+                                       0.86506337, 0.97390653])
             else:
                 optZeros = np.asarray([0, 0.41572267, 0.67208682, 0.86238894,
                                        0.97342121])
-- 
2.43.0


From a7ec7eb8d402f30f9789018736d7479305acd8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 19/58] fix: loudness level from sound pressure level did not
 follow ISO 226

---
 src/pydsm/iso226.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index cc47a65..30ab051 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -269,8 +269,8 @@ def tabled_B_f(L_p, hfe=False):
     reference pressure level P0 (close to the hearing threshold at 1 kHz and
     set to 20 uPa RMS).
     """
-    B_f = ((0.4*10**(L_p+tbl_L_U)/10.-9.)**tbl_alpha_f -
-           (0.4*10**(tbl_T_f+tbl_L_U)/10.-9.)**tbl_alpha_f +
+    B_f = ((0.4*10**((L_p+tbl_L_U)/10.-9.))**tbl_alpha_f -
+           (0.4*10**((tbl_T_f+tbl_L_U)/10.-9.))**tbl_alpha_f +
            0.005135)
     return np.append(B_f, B_f[0]) if hfe else B_f
 
-- 
2.43.0


From f8c4c49867c793c346047ebddb29445663812fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 20/58] fix: wrong pole in the A-weighting filter

---
 src/pydsm/audio_weightings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index e09be2f..99f775b 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -111,7 +111,7 @@ __all__ = ["a_zpk", "a_weighting", "b_zpk", "b_weighting",
            "f_zpk", "f_weighting"]
 
 a_zpk = (2*np.pi*np.asarray([0., 0., 0., 0.]),
-         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -739.9, -12200., -12200.]),
+         2*np.pi*np.asarray([-20.6, -20.6, -107.7, -737.9, -12200., -12200.]),
          (2*np.pi*12200.)**2)
 """A-weighting filter in zpk form."""
 
-- 
2.43.0


From 90c8c6823cb693b7d79d0fbaf490908b2b18941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 21/58] fix: zero pre-assignment in bandpass minmax designs
 failed with cvxpy and picos

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py | 12 ++++++------
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py |  5 ++---
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
index 12dcbce..b0a57e3 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy.py
@@ -97,7 +97,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             F += [M << 0]
             if zf:
                 # Force a zero at DC
-                F += [cvxpy.sum_entries(c) == -1]
+                F += [cvxpy.sum(c) == -1]
         else:
             # Bandpass modulator
             M1r = (A.T @ P @ A + Q @ A*np.cos(omega0) +
@@ -121,11 +121,11 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
             if zf:
                 # Force a zero at z=np.exp(1j*omega0)
                 nn = np.arange(order).reshape((order, 1))
-                vr = np.matrix(np.cos(omega0*nn))
-                vi = np.matrix(np.sin(omega0*nn))
-                vn = np.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [c*cvxpy.hstack(vr, vi) == vn]
+                vr = np.cos(omega0*nn)
+                vi = np.sin(omega0*nn)
+                vn = np.array(
+                    [[-np.cos(omega0*order), -np.sin(omega0*order)]])
+                F += [c @ np.hstack((vr, vi)) == vn]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy.Variable((order, order), PSD=True)
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 47770a9..97d3904 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -130,9 +130,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 nn = np.arange(order).reshape((order, 1))
                 vr = cvxopt.matrix(np.cos(omega0*nn))
                 vi = cvxopt.matrix(np.sin(omega0*nn))
-                vn = cvxopt.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                p.add_constraint(c*(vr & vi) == vn)
+                p.add_constraint(c*vr == -np.cos(omega0*order))
+                p.add_constraint(c*vi == -np.sin(omega0*order))
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From 2894af030443135f763fa893ddc1d5be1bfbbab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 22/58] fix: zero pre-assignment in minmax designs failed at
 f0=0.5

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py | 6 +++---
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py     | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index c20cee3..4e53a21 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -123,9 +123,9 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 nn = np.arange(order).reshape((order, 1))
                 vr = cvxpy_tdr.matrix(np.cos(omega0*nn))
                 vi = cvxpy_tdr.matrix(np.sin(omega0*nn))
-                vn = cvxpy_tdr.matrix(
-                    [-np.cos(omega0*order), -np.sin(omega0*order)])
-                F += [cvxpy_tdr.equals(c*cvxpy_tdr.hstack((vr, vi)), vn)]
+                F += [cvxpy_tdr.equals(c*vr, -np.cos(omega0*order))]
+                if f0 != 0.5:
+                    F += [cvxpy_tdr.equals(c*vi, -np.sin(omega0*order))]
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = cvxpy_tdr.variable(order, order, 'symmetric')
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 97d3904..8c741c9 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -131,7 +131,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                 vr = cvxopt.matrix(np.cos(omega0*nn))
                 vi = cvxopt.matrix(np.sin(omega0*nn))
                 p.add_constraint(c*vr == -np.cos(omega0*order))
-                p.add_constraint(c*vi == -np.sin(omega0*order))
+                if f0 != 0.5:
+                    p.add_constraint(c*vi == -np.sin(omega0*order))
     if H_inf < np.inf:
         # Enforce the Lee constraint
         R = picos.SymmetricVariable('R', order)
-- 
2.43.0


From 78d82de4a0b79390699c2f00c005bceb2ea970d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 23/58] fix: minmax designs failed with cvxpy when the chol kkt
 solver is its default

---
 src/pydsm/NTFdesign/minmax/_fir_minmax.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax.py b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
index b6d88c8..7a597a8 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax.py
@@ -145,6 +145,9 @@ def ntf_fir_minmax(order=32, osr=32, H_inf=1.5, f0=0, zf=False,
                 [], ['cvxopt_opts'], False)['cvxopt_opts'])
             if opts['cvxpy_opts'].get('override_kktsolver', True):
                 dig_opts['cvxpy_opts']['kktsolver'] = 'chol'
+            else:
+                # Recent versions of cvxpy already default to 'chol'
+                dig_opts['cvxpy_opts']['kktsolver'] = 'robust'
         elif opts['cvxpy_opts']['solver'] == 'scs':
             dig_opts['cvxpy_opts'].update(digested_options(
                 options, ntf_fir_minmax.default_options,
-- 
2.43.0


From 2f19114a9840f71c18ba30d8c8ffdb64388a8b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 24/58] fix: ntf_dunn went through a deprecated alias and
 warned about it

---
 src/pydsm/NTFdesign/psychoacoustic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index f2cd4b2..d3d6403 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -54,7 +54,7 @@ from __future__ import division, print_function
 
 from copy import deepcopy
 import numpy as np
-from .delsig import synthesizeNTF
+from .delsig import ntf_schreier
 from ..delsig import undbp as undbp
 from .. import audio_weightings
 from .weighting import ntf_fir_weighting
@@ -191,7 +191,7 @@ def ntf_dunn(order=3, osr=64, H_inf=1.5):
     --------
     pydsm.delsig.synthesizeNTF : DELSIG's optimal NTF design strategy.
     """
-    return synthesizeNTF(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
+    return ntf_schreier(order, osr, dunn_optzeros_cplx(order, osr), H_inf, 0)
 
 
 def ntf_fir_audio_weighting(
-- 
2.43.0


From ad3c806f8273d158dbfad414f827683129c6020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 25/58] fix: dtft_hermitian rejected lists and ignored
 imaginary parts

---
 src/pydsm/ft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 456b087..d2093bc 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -139,9 +139,10 @@ def dtft_hermitian(x, fs=1):
     fs : real, optional
         sample frequency for the input vector (defaults to 1)
     """
-    x = x.real
+    x = np.asarray(x)
     return lambda f: \
-        x[0]+np.sum(x[1:]*2*np.cos(2*np.pi*f/fs*np.arange(1, len(x))))
+        np.real(x[0])+2*np.sum(np.real(
+            x[1:]*np.exp(-2j*np.pi*f/fs*np.arange(1, len(x)))))
 
 
 def _idtft(Ff, t, fs=1, **quad_opts):
-- 
2.43.0


From 307eb6021aa4ecb83309ec397fa5002b43dc7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 26/58] fix: idtft_hermitian ignored the imaginary part of its
 input

---
 src/pydsm/ft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index d2093bc..74e756d 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -199,7 +199,8 @@ idtft.default_options = {"quad_opts": {"epsabs": 1E-12,
 
 
 def _idtft_hermitian(Ff, t, fs=1, **quad_opts):
-    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs))*np.cos(2*np.pi*f*t),
+    return 2*sp.integrate.quad(lambda f: np.real(Ff(f*fs) *
+                                                 np.exp(2j*np.pi*f*t)),
                                0, 0.5, **quad_opts)[0]
 
 
-- 
2.43.0


From 39283ca2e6cde09994b7fa120b48cc7e4e1beffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:54 +0000
Subject: [PATCH 27/58] fix: documented results of fft_centered and raw_xcorr
 differ from the delivered ones

---
 src/pydsm/correlations.py | 4 ++--
 src/pydsm/ft.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index 26b1e6b..ffd8e7f 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -97,8 +97,8 @@ def raw_xcorr(x, y, N):
     q : ndarray
         the raw (unnormalized) crosscorrelation vector.
         Assuming that :math:`m_x` and :math:`m_y` are the lengths of x and y,
-        :math:`q(k) = \\sum_{n=k}^{\\min(m_x-1,m_y+k-1)}
-        x(n) y(n-k) \\text{ for } k = 0 \\dots N`
+        :math:`q(k) = \\sum_{n=k}^{\\min(m_y-1,m_x+k-1)}
+        y(n) x(n-k) \\text{ for } k = 0 \\dots N`
 
     Notes
     -----
diff --git a/src/pydsm/ft.py b/src/pydsm/ft.py
index 74e756d..48135bf 100644
--- a/src/pydsm/ft.py
+++ b/src/pydsm/ft.py
@@ -66,10 +66,10 @@ def fft_centered(x, fs=1):
 
     Returns
     -------
-    X : ndarray
-        samples of the DFT of the input vector
     ff : ndarray
         vector of frequencies corresponding to the samples in X
+    X : ndarray
+        samples of the DFT of the input vector
 
     Other Parameters
     ----------------
-- 
2.43.0


From 278c4451f6ea66551fe4a08aaa08c87e927b8451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 28/58] fix: operations on sparse matrices in cvxpy_tdr
 referred to a nonexistent numpy class

---
 src/pydsm/cvxpy_tdr/arrays.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 04e6dfd..51c5f5c 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -725,7 +725,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__radd__(self,other)
+            return sp.lil_matrix.__radd__(self,other)
 
     # Method: __sub__
     def __sub__(self,other):
@@ -734,7 +734,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__sub__(self,other)
+            return sp.lil_matrix.__sub__(self,other)
 
     # Method: __rsub__
     def __rsub__(self,other):
@@ -743,7 +743,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rsub__(self,other)
+            return sp.lil_matrix.__rsub__(self,other)
 
     # Method: __mul__
     def __mul__(self,other):
@@ -752,7 +752,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__mul__(self,other)
+            return sp.lil_matrix.__mul__(self,other)
 
     # Method: __rmul__
     def __rmul__(self,other):
@@ -761,7 +761,7 @@ class cvxpy_spmatrix(sp.lil_matrix):
             type(other).__name__ in ARRAY_OBJS):
             return NotImplemented
         else:
-            return np.lil_matrix.__rmul__(self,other)
+            return sp.lil_matrix.__rmul__(self,other)
 
 #***********************************************************************#
 # Class definition: cvxpy_sparray                                       #
-- 
2.43.0


From 9b60512f6ce0224553337cd034d22af904ca724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 29/58] fix: undbm failed on lists

---
 src/pydsm/delsig/_decibel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index b05a1ce..1c98563 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -182,4 +182,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((x-30)/10.))
+    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
-- 
2.43.0


From 88db89fd8e6a743a2a916ca5a81d91fbf93d555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 30/58] fix: synthesizeNTF missed H_inf for high orders and
 failed on second order bandpass modulators

The search for the poles stopped on an absolute change of a parameter that
can be as small as 1e-6, or exceeded its iteration limit, and the poles
suffered from cancellation, so that they could not be paired.
---
 src/pydsm/delsig/_synthesizeNTF0.py | 151 ++++++++++++----------------
 src/pydsm/delsig/_synthesizeNTF1.py | 103 ++-----------------
 2 files changed, 71 insertions(+), 183 deletions(-)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index e669f12..0d5a941 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -61,6 +61,68 @@ if sys.version_info < (3,):
     range = xrange
 
 
+def ntf_poles(z, order, H_inf, f0, itn_limit=100):
+    """
+    Poles making the NTF denominator maximally flat at the band center.
+
+    The poles are placed so that the gain of the NTF with zeros z is H_inf
+    at the far end of the spectrum.
+    """
+    # All the poles depend on a single parameter x. The larger x, the farther
+    # the poles from the band center and the larger the gain.
+    if f0 == 0:
+        c = 1.
+        w = (2*np.arange(1, order+1)+1)*np.pi/order
+        u = -np.exp(1j*w)
+    else:
+        c = np.cos(2*np.pi*f0)
+        w = (2*np.arange(order)+1)*np.pi/order
+        u = np.exp(1j*w)
+    z_inf = 1. if f0 > 0.25 else -1.
+    if H_inf >= np.real(evalTF((z, np.zeros(order), 1), z_inf)):
+        warn('Unable to achieve specified Hinf, '
+             'setting all NTF poles to zero',
+             PyDsmApproximationWarning)
+        return np.zeros(order)
+    x_min = 0.
+    x_max = 1e6
+    x = 0.3   # starting guess
+    for itn in range(1, itn_limit+1):
+        mb2 = c + 0.5*x**2*u
+        sq = np.sqrt(mb2**2-1)
+        # Take the larger among the reciprocal roots, since the other one
+        # suffers from cancellation, and get the pole inside the unit circle
+        # from it.
+        p = mb2 + sq
+        small = np.abs(p) < 1
+        p[small] = (mb2 - sq)[small]
+        # The following is not exactly what delsig does.
+        # We do not have an identical cplxpair
+        p = cplxpair(1/p, tol=1e-12)
+        f = np.log(np.real(evalTF((z, p, 1), z_inf))/H_inf)
+        if abs(f) < 1e-12:
+            break
+        if f > 0:
+            x_max = x
+        else:
+            x_min = x
+        if x_max-x_min < 1e-13*x_max:
+            break
+        # Secant search, safeguarded by bisection
+        if itn == 1 or f == f_p or itn % 4 == 0:
+            x_new = -1.
+        else:
+            x_new = x-f*(x-x_p)/(f-f_p)
+        if not x_min < x_new < x_max:
+            x_new = min(2*x_min+1e-3, 0.5*(x_min+x_max))
+        x_p = x
+        f_p = f
+        x = x_new
+    else:
+        warn('Iteration limit exceeded', PyDsmApproximationWarning)
+    return p
+
+
 def synthesizeNTF0(order, osr, opt, H_inf, f0):
     # Determine the zeros.
     if f0 != 0:
@@ -87,94 +149,7 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
     else:
         z = opt
 
-    p = np.zeros(order)
+    p = ntf_poles(z, order, H_inf, f0)
     k = 1
-    itn_limit = 100
-    fprev = 0
-
-    if f0 == 0:
-        # Lowpass design
-        HinfLimit = 2**order
-        # !!! The limit is actually lower for opt=1 and low OSR
-        if H_inf >= HinfLimit:
-            warn('Unable to achieve specified H_inf, '
-                 'setting all NTF poles to zero',
-                 PyDsmApproximationWarning)
-            p = np.zeros(order)
-        else:
-            x = 0.3**(order-1)   # starting guess
-            for itn in range(1, itn_limit+1):
-                me2 = -0.5*(x**(2./order))
-                w = (2*np.arange(1, order+1)+1)*np.pi/order
-                mb2 = 1+me2*np.exp(1j*w)
-                p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
-                # The following is not exactly what delsig does.
-                # We do not have an identical cplxpair
-                p = cplxpair(p)
-                f = np.real(evalTF((z, p, k), -1))-H_inf
-                if itn == 1:
-                    delta_x = -f/100
-                else:
-                    delta_x = -f*delta_x/(f-fprev)
-                xplus = x+delta_x
-                if xplus > 0:
-                    x = xplus
-                else:
-                    x = x*0.1
-                fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
-                    break
-                if x > 1e6:
-                    warn('Unable to achieve specified Hinf, '
-                         'setting all NTF poles to zero',
-                         PyDsmApproximationWarning)
-                    p = np.zeros(order)
-                    break
-                if itn == itn_limit:
-                    warn('Iteration limit exceeded',
-                         PyDsmApproximationWarning)
-    else:
-        # Bandpass design
-        x = 0.3**(order//2-1)   # starting guess (not very good for f0~0)
-        if f0 > 0.25:
-            z_inf = 1.
-        else:
-            z_inf = -1.
-        c2pif0 = np.cos(2*np.pi*f0)
-        for itn in range(1, itn_limit+1):
-            e2 = 0.5*x**(2./order)
-            w = (2*np.arange(order)+1)*np.pi/order
-            mb2 = c2pif0 + e2*np.exp(1j*w)
-            p = mb2 - np.sqrt(mb2**2-1)
-            # Reflect poles to be inside the unit circle
-            out = abs(p) > 1
-            p[out] = 1/p[out]
-            # The following is not exactly what delsig does.
-            p = cplxpair(p)
-            f = np.real(evalTF((z, p, k), z_inf))-H_inf
-            if itn == 1:
-                delta_x = -f/100
-            else:
-                delta_x = -f*delta_x/(f-fprev)
-            xplus = x+delta_x
-            if xplus > 0:
-                x = xplus
-            else:
-                x = x*0.1
-            fprev = f
-            if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
-                break
-            if x > 1e6:
-                warn('Unable to achieve specified Hinf, '
-                     'Setting all NTF poles to zero',
-                     PyDsmApproximationWarning)
-                p = np.zeros(order)
-                break
-            if itn == itn_limit:
-                warn('Iteration limit exceeded', PyDsmApproximationWarning)
-
     z = cplxpair(z)
     return z, p, k
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index de713fd..324bf36 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -57,6 +57,7 @@ from ._tf import evalTF
 from ..utilities import is_negligible
 from ..relab import cplxpair
 from ._ds import ds_optzeros, ds_synNTFobj1
+from ._synthesizeNTF0 import ntf_poles
 from ._padding import padl
 
 import sys
@@ -96,105 +97,14 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         # Do not optimize the zeros at f0
         x0 = np.delete(x0, np.nonzero(is_negligible(x0)))
 
-    p = np.zeros(order)
     k = 1
-    Hinf_itn_limit = 100
-    fprev = 0
 
+    ftol = 1e-10
+    z_inf = 1. if f0 > 0.25 else -1.
     opt_iteration = 5   # Max number of zero-optimizing/Hinf iterations
     while opt_iteration > 0:
-        # Iteratively determine the poles by finding the value of the x
-        # parameter which results in the desired H_inf
-        ftol = 1e-10
-        if f0 > 0.25:
-            z_inf = 1
-        else:
-            z_inf = -1
-        if f0 == 0:
-            # Lowpass design
-            HinfLimit = 2**order
-            # !!! The limit is actually lower for opt=1 and low OSR
-            if H_inf >= HinfLimit:
-                warn('Unable to achieve specified Hinf, '
-                     'setting all NTF poles to zero',
-                     PyDsmApproximationWarning)
-                p = np.zeros(order)
-            else:
-                x = 0.3**(order-1)   # starting guess
-                for itn in range(1, Hinf_itn_limit+1):
-                    me2 = -0.5*(x**(2./order))
-                    w = (2*np.arange(1, order+1)+1)*np.pi/order
-                    mb2 = 1+me2*np.exp(1j*w)
-                    p = mb2 - np.sqrt(mb2**2-1)
-                    # Reflect poles to be inside the unit circle
-                    out = abs(p) > 1
-                    p[out] = 1/p[out]
-                    # The following is not exactly what delsig does.
-                    # We do not have an identical cplxpair
-                    p = cplxpair(p)
-                    f = np.real(evalTF((z, p, k), z_inf))-H_inf
-                    if itn == 1:
-                        delta_x = -f/100
-                    else:
-                        delta_x = -f*delta_x/(f-fprev)
-
-                    xplus = x+delta_x
-                    if xplus > 0:
-                        x = xplus
-                    else:
-                        x = x*0.1
-                    fprev = f
-                    if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
-                        break
-                    if x > 1e6:
-                        warn('Unable to achieve specified Hinf, '
-                             'setting all NTF poles to zero.',
-                             PyDsmApproximationWarning)
-                        p = np.zeros(order)
-                        break
-                    if itn == Hinf_itn_limit:
-                        warn('Iteration limit exceeded.',
-                             PyDsmApproximationWarning)
-        else:
-            # Bandpass design
-            x = 0.3**(order//2-1)   # starting guess (not very good for f0~0)
-            if f0 > 0.25:
-                z_inf = 1.
-            else:
-                z_inf = -1.
-            c2pif0 = np.cos(2*np.pi*f0)
-            for itn in range(1, Hinf_itn_limit+1):
-                e2 = 0.5*x**(2./order)
-                w = (2*np.arange(order)+1)*np.pi/order
-                mb2 = c2pif0 + e2*np.exp(1j*w)
-                p = mb2 - np.sqrt(mb2**2-1)
-                # Reflect poles to be inside the unit circle
-                out = abs(p) > 1
-                p[out] = 1/p[out]
-                # The following is not exactly what delsig does.
-                p = cplxpair(p)
-                f = np.real(evalTF((z, p, k), z_inf))-H_inf
-                if itn == 1:
-                    delta_x = -f/100
-                else:
-                    delta_x = -f*delta_x/(f-fprev)
-                xplus = x+delta_x
-                if xplus > 0:
-                    x = xplus
-                else:
-                    x = x*0.1
-                fprev = f
-                if abs(f) < 1e-10 or abs(delta_x) < 1e-10:
-                    break
-                if x > 1e6:
-                    warn('Unable to achieve specified Hinf, '
-                         'setting all NTF poles to zero.',
-                         PyDsmApproximationWarning)
-                    p = np.zeros(order)
-                    break
-                if itn == Hinf_itn_limit:
-                    warn('Iteration limit exceeded.',
-                         PyDsmApproximationWarning)
+        # Determine the poles which result in the desired H_inf
+        p = ntf_poles(z, order, H_inf, f0)
 
         # ---- Zero optimization part
         if (opt.size == 1 and opt < 3) or opt.size > 1 or x0.size < 1:
@@ -226,5 +136,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
                 opt_iteration = 0
             else:
                 opt_iteration = opt_iteration - 1
+                if opt_iteration == 0:
+                    # Poles for the last set of zeros
+                    p = ntf_poles(z, order, H_inf, f0)
     z = cplxpair(z)
     return (z, p, k)
-- 
2.43.0


From 7b77cfa3d554a80f20c4bf52d7c57cb44ebbe9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 31/58] fix: clans failed or got stuck when the initial poles
 exceed rmax

Poles moved exactly onto the circle with radius rmax have null damping
factor. Rounding could make it negative, and the derivatives of the
parametrization vanish there.
---
 src/pydsm/delsig/_clans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 8a86af3..263ee81 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -178,7 +178,7 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         if np.abs(z) > 1:
             # Project poles outside rmax onto the circle with radius rmax
             # NB. Test has been fixed wrt DELSIG, where it always fails.
-            z = z/np.abs(z)
+            z = 0.99*z/np.abs(z)
         # Bilinear transform (modulus a mult. coeff)
         s = (z-1)/(z+1)
         x[0] = np.sqrt(-s)
@@ -189,7 +189,7 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         z = poles[i:i+2]/rmax
         if np.any(np.abs(z) > 1):
             # Project poles outside rmax onto the circle with radius rmax
-            z = z/np.abs(z)
+            z = 0.99*z/np.abs(z)
         # Bilinear transform (modulus a mult. coeff)
         s = (z-1)/(z+1)
         coeffs = np.poly(s).real
-- 
2.43.0


From f28e1d5585395f9aa56ee278b55d432a3c6ad207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:08 +0000
Subject: [PATCH 32/58] fix: clans silently returned NTFs violating its
 constraint

---
 src/pydsm/delsig/_clans.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_clans.py b/src/pydsm/delsig/_clans.py
index 263ee81..0d63e8f 100644
--- a/src/pydsm/delsig/_clans.py
+++ b/src/pydsm/delsig/_clans.py
@@ -65,6 +65,8 @@ from ._tf import evalTF
 from ..ir import impulse_response
 from ._dsclansNTF import dsclansNTF
 from ..utilities import digested_options
+from ..exceptions import PyDsmApproximationWarning
+from warnings import warn
 
 __all__ = ["clans"]
 
@@ -102,7 +104,7 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
     slsqp_opts : dictionary, optional
         Parameters passed to the ``fmin_slsqp`` optimizer. Allowed options are:
 
-        ``maxiters``
+        ``maxiter``
             Maximum number of iterations (defaults to 100)
         ``ftol``
             Precision goal for the value of f in the stopping criterion
@@ -131,6 +133,12 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
         'The opt vector must be of length xxx' if opt is used to explicitly
         pass the NTF zeros and these are in the wrong number.
 
+    Warns
+    -----
+    PyDsmApproximationWarning
+        'Unable to satisfy the constraint ...' if the optimizer cannot find an
+        NTF compatible with the number of quantization levels.
+
     Notes
     -----
     This is actually an adaptation of the CLANS method. In the
@@ -205,6 +213,9 @@ def clans(order=4, osr=64, nq=5, rmax=0.95, opt=0, **options):
                               'fun': _dsclansObj6b,
                               'args': (order, osr, nq, rmax, Hz)},
                  options=slsqp_opts)['x']
+    if _dsclansObj6b(x, order, osr, nq, rmax, Hz) < -1e-3*nq:
+        warn('Unable to satisfy the constraint on the quantization levels',
+             PyDsmApproximationWarning)
     return dsclansNTF(x, order, rmax, Hz)
 
 clans.default_options = {'show_progress': False,
-- 
2.43.0


From d6c4c9e74c5bce2086582193718a532c45e7f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 33/58] fix: spread_fir_uc_zeros failed for order 1 and got
 stuck at low oversampling ratios

---
 src/pydsm/NTFdesign/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/helpers.py b/src/pydsm/NTFdesign/helpers.py
index 332cdff..c18d5d3 100644
--- a/src/pydsm/NTFdesign/helpers.py
+++ b/src/pydsm/NTFdesign/helpers.py
@@ -162,7 +162,11 @@ def spread_fir_uc_zeros(order, OSR, cf, cf_args=[], cf_kwargs={}, **options):
                             [], ['L_BFGS_B_opts'])
     xl = order // 2
     zeros = np.zeros(order, dtype=complex)
-    xx = minimize(mf, np.linspace(np.pi/OSR/order, np.pi/OSR, xl),
+    if xl == 0:
+        # No degrees of freedom
+        return dof2zeros(np.zeros(0))
+    # Start inside the bounds, where the optimizer does not get stuck
+    xx = minimize(mf, np.pi/OSR*(2*np.arange(xl)+1)/(2*xl),
                   method='l-bfgs-b', options=opts["L_BFGS_B_opts"],
                   bounds=[(0, np.pi/OSR)] * xl).x
     return dof2zeros(xx)
-- 
2.43.0


From cd941198632488ca4361dd722a79c79172695f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 34/58] fix: synthesizeNTF returned half the poles for bandpass
 modulators with assigned zeros

---
 src/pydsm/delsig/_synthesizeNTF0.py | 2 ++
 src/pydsm/delsig/_synthesizeNTF1.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pydsm/delsig/_synthesizeNTF0.py b/src/pydsm/delsig/_synthesizeNTF0.py
index 0d5a941..34c6a5f 100644
--- a/src/pydsm/delsig/_synthesizeNTF0.py
+++ b/src/pydsm/delsig/_synthesizeNTF0.py
@@ -148,6 +148,8 @@ def synthesizeNTF0(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     p = ntf_poles(z, order, H_inf, f0)
     k = 1
diff --git a/src/pydsm/delsig/_synthesizeNTF1.py b/src/pydsm/delsig/_synthesizeNTF1.py
index 324bf36..97b258a 100644
--- a/src/pydsm/delsig/_synthesizeNTF1.py
+++ b/src/pydsm/delsig/_synthesizeNTF1.py
@@ -90,6 +90,8 @@ def synthesizeNTF1(order, osr, opt, H_inf, f0):
         z = np.exp(1j*z)
     else:
         z = opt
+        if f0 != 0:
+            order = order*2
 
     zp = z[np.angle(z) > 0]
     x0 = (np.angle(zp)-2*np.pi*f0) * osr / np.pi
-- 
2.43.0


From d042f3db45e7f7a1f78fd648c686ff1a90c12f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 35/58] fix: FIR designs of order 1 failed with the cvxpy_old
 and picos modelers

---
 src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py       | 8 ++++----
 src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py           | 2 +-
 src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py | 4 ++--
 src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py     | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
index 4e53a21..044ca2d 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_cvxpy_tdr.py
@@ -70,7 +70,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
 
     # Set up the problem
     bands = len(f0s)
-    c = cvxpy_tdr.variable(1, order)
+    c = cvxpy_tdr.arrays.cvxpy_var(1, order)
     F = []
     gg = cvxpy_tdr.arrays.cvxpy_var(bands, 1)
 
@@ -79,8 +79,8 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
         osr = osrs[idx]
         omega0 = 2*f0*np.pi
         Omega = 1./osr*np.pi
-        P = cvxpy_tdr.variable(order, order, 'symmetric')
-        Q = cvxpy_tdr.variable(order, order, 'symmetric')
+        P = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
+        Q = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         if f0 == 0:
             # Lowpass modulator
             M1 = A.T*P*A+Q*A+A.T*Q-P-2*Q*np.cos(Omega)
@@ -128,7 +128,7 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
                     F += [cvxpy_tdr.equals(c*vi, -np.sin(omega0*order))]
     if H_inf < np.inf:
         # Enforce the Lee constraint
-        R = cvxpy_tdr.variable(order, order, 'symmetric')
+        R = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric')
         F += [cvxpy_tdr.belongs(R, cvxpy_tdr.semidefinite_cone)]
         MM = cvxpy_tdr.vstack(
             (cvxpy_tdr.hstack((A.T*R*A-R, A.T*R*B, c.T)),
diff --git a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
index 8c741c9..00f36eb 100644
--- a/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
+++ b/src/pydsm/NTFdesign/minmax/_fir_minmax_picos.py
@@ -145,4 +145,4 @@ def ntf_fir_from_digested(order, osrs, H_inf, f0s, zf, **opts):
     p.add_constraint(picos.sum_k_largest(gg, 1) <= mx)
     p.set_objective('min', mx)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(c.value)[0, ::-1]))
+    return np.hstack((1, np.ravel(c.value)[::-1]))
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
index 58f165e..387e254 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_cvxpy_tdr.py
@@ -30,9 +30,9 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     """
     quiet = not opts['show_progress']
     order = np.size(Qs, 0)-1
-    br = cvxpy_tdr.variable(order, 1, name='br')
+    br = cvxpy_tdr.arrays.cvxpy_var(order, 1, name='br')
     b = cvxpy_tdr.vstack((1, br))
-    X = cvxpy_tdr.variable(order, order, structure='symmetric', name='X')
+    X = cvxpy_tdr.arrays.cvxpy_var(order, order, 'symmetric', 'X')
     Qs = cvxpy_tdr.matrix(Qs)
     target = cvxpy_tdr.norm2(Qs*b)
     A = cvxpy_tdr.matrix(A)
diff --git a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
index 1227536..9761ce0 100644
--- a/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
+++ b/src/pydsm/NTFdesign/weighting/_fir_weighting_picos.py
@@ -64,4 +64,4 @@ def ntf_fir_from_digested(Qs, A, C, H_inf, **opts):
     p.add_constraint(constraint1)
     p.add_constraint(constraint2)
     p.solve(verbosity=verbose, **opts['picos_opts'])
-    return np.hstack((1, np.asarray(br.value.T)[0]))
+    return np.hstack((1, np.ravel(br.value)))
-- 
2.43.0


From 8a759ebf8454ad2c73ab4612683fafd9e7bc1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 36/58] fix: Dunn's optimal zeros for order 7 included a
 spurious zero

---
 src/pydsm/NTFdesign/psychoacoustic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/NTFdesign/psychoacoustic.py b/src/pydsm/NTFdesign/psychoacoustic.py
index d3d6403..7aa9a2a 100644
--- a/src/pydsm/NTFdesign/psychoacoustic.py
+++ b/src/pydsm/NTFdesign/psychoacoustic.py
@@ -108,7 +108,7 @@ def dunn_optzeros(n):
                          [3.590, -3.590, 11.954, -11.954],
                          [0.0, 4.308, -4.308, 12.959, -12.959],
                          [3.325, -3.325, 7.078, -7.078, 13.389, -13.389],
-                         [0.0, 0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
+                         [0.0, 4.017, -4.017, 10.471, -10.471, 13.842,
                           -13.842],
                          [2.933, -2.933, 5.167, -5.167, 12.012, -12.012,
                           14.381, -14.381]]
-- 
2.43.0


From e78763b27008158efb77ed5dec30236615d091f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 37/58] fix: changing the tables returned by iso226 altered
 later results

---
 src/pydsm/iso226.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/iso226.py b/src/pydsm/iso226.py
index 30ab051..7833d18 100644
--- a/src/pydsm/iso226.py
+++ b/src/pydsm/iso226.py
@@ -129,7 +129,7 @@ def tabled_f(hfe=False):
     f : array of floats
         the frequency table.
     """
-    return np.append(tbl_f, 20E3) if hfe else tbl_f
+    return np.append(tbl_f, 20E3) if hfe else tbl_f.copy()
 
 
 def tabled_alpha_f(hfe=False):
@@ -146,7 +146,7 @@ def tabled_alpha_f(hfe=False):
     alpha_f : array of floats
         the exponents table.
     """
-    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f
+    return np.append(tbl_alpha_f, tbl_alpha_f[0]) if hfe else tbl_alpha_f.copy()
 
 
 def tabled_L_U(hfe=False):
@@ -168,7 +168,7 @@ def tabled_L_U(hfe=False):
     The returned values are the magnitude of the linear transfer function
     normalized at 1 kHz.
     """
-    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U
+    return np.append(tbl_L_U, tbl_L_U[0]) if hfe else tbl_L_U.copy()
 
 
 def tabled_T_f(hfe=False):
@@ -185,7 +185,7 @@ def tabled_T_f(hfe=False):
     T_f : array of floats
         the thresholds table.
     """
-    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f
+    return np.append(tbl_T_f, tbl_T_f[0]) if hfe else tbl_T_f.copy()
 
 
 # Check that it works fine when L_N is array
-- 
2.43.0


From bfaea68b55fea0eb50e4cc5b8455fad598619e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 38/58] fix: cvxpy_tdr left the global options of cvxopt
 changed after solving

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 308e66c..602ecd4 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -67,17 +67,22 @@ def call_solver(p,quiet):
     # Construct F
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
-    # Call cvxopt
+    # Call cvxopt, that takes its options from a global dictionary
+    saved_options = dict(solvers.options)
     solvers.options['maxiters'] = p.options['maxiters']
     solvers.options['abstol'] = p.options['abstol']
     solvers.options['reltol'] = p.options['reltol']
     solvers.options['feastol'] = p.options['feastol']
     solvers.options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
-    if F is None:
-        r =  solvers.conelp(c,G,h,dims,A,b)
-    else:
-        r =  solvers.cpl(c,F,G,h,dims,A,b)
+    try:
+        if F is None:
+            r =  solvers.conelp(c,G,h,dims,A,b)
+        else:
+            r =  solvers.cpl(c,F,G,h,dims,A,b)
+    finally:
+        solvers.options.clear()
+        solvers.options.update(saved_options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From a4f677171ef9547fec9d2ab881da0b138724a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 39/58] fix: cvxpy_tdr.spmatrix failed since the sparse format
 is read only in scipy

---
 src/pydsm/cvxpy_tdr/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 51c5f5c..7ccc14b 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -680,7 +680,8 @@ class cvxpy_spmatrix(sp.lil_matrix):
 
         # Call parent constructor
         sp.lil_matrix.__init__(self,arg,dtype=dtype)
-        self.format = sp.lil_matrix.__name__[:3]
+        if self.format != sp.lil_matrix.__name__[:3]:
+            self.format = sp.lil_matrix.__name__[:3]
 
     # Method: _create_col_based_rep
     def _create_col_based_rep(self):
-- 
2.43.0


From 5bb5c74973dc80140df6c243944a209be225657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 40/58] fix: cvxpy_tdr difference of a sparse and a dense array
 ignored the sign outside of the stored entries

---
 src/pydsm/cvxpy_tdr/arrays.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/arrays.py b/src/pydsm/cvxpy_tdr/arrays.py
index 7ccc14b..020183d 100644
--- a/src/pydsm/cvxpy_tdr/arrays.py
+++ b/src/pydsm/cvxpy_tdr/arrays.py
@@ -286,7 +286,10 @@ class cvxpy_array(object):
             else:
                 for i in range(0,m):
                     for j in range(0,n):
-                        new_ar.data[i][j] = self.data[i][j]
+                        if action == RIGHT_SUBTRACT:
+                            new_ar.data[i][j] = -self.data[i][j]
+                        else:
+                            new_ar.data[i][j] = self.data[i][j]
                 for i in range(0,m,1):
                     rowi_indeces = other.rows[i]
                     rowi_values = other.data[i]
@@ -300,7 +303,7 @@ class cvxpy_array(object):
                         elif action == RIGHT_ADD:
                             new_ar.data[i][j] = value + new_ar.data[i][j]
                         else:
-                            new_ar.data[i][j] = value - new_ar.data[i][j]
+                            new_ar.data[i][j] = value + new_ar.data[i][j]
                 return new_ar
 
         # Not implemented
-- 
2.43.0


From 48c9cc37b0cbc6f0d9334cf7b84a8d946eca6971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 41/58] fix: cvxpy_tdr.reshape of object arrays used a float
 index on python 3

---
 src/pydsm/cvxpy_tdr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/utils.py b/src/pydsm/cvxpy_tdr/utils.py
index 1b690e7..d7a718e 100644
--- a/src/pydsm/cvxpy_tdr/utils.py
+++ b/src/pydsm/cvxpy_tdr/utils.py
@@ -394,7 +394,7 @@ def reshape(v, newshape):
         for j in range(0,n,1):
             for i in range(0,m,1):
                 k = j*m + i
-                new_ar[k % mn,k / mn] = v[i,j]
+                new_ar[k % mn,k // mn] = v[i,j]
         return new_ar
 
 # Load modules
-- 
2.43.0


From c385eeea81d3e0b61944bc4e1cd7ace5aef3a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 42/58] fix: cvxpy_tdr programs used as functions could not
 take arguments built on their own formals

---
 src/pydsm/cvxpy_tdr/procedures/re_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/re_eval.py b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
index 5e730c1..fbe0f27 100644
--- a/src/pydsm/cvxpy_tdr/procedures/re_eval.py
+++ b/src/pydsm/cvxpy_tdr/procedures/re_eval.py
@@ -47,14 +47,14 @@ def re_eval(arg,replace_map):
     # Scalar variable
     elif type(arg) is cvxpy_scalar_var:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
     # Scalar param
     elif type(arg) is cvxpy_scalar_param:
         if arg in replace_map.keys():
-            return re_eval(replace_map[arg],replace_map)
+            return re_eval(replace_map[arg],{})
         else:
             return arg
 
-- 
2.43.0


From 7bb177788d1b50606ede168b3f861604d94140c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 43/58] fix: cvxpy_tdr programs whose objective is constant
 could not be used in expressions

---
 src/pydsm/cvxpy_tdr/programs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index 3f5b4c0..ad6ff1e 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -347,11 +347,14 @@ class cvxpy_program(object):
 
         # Embed
         right = constr.right
+        objective = new_p.objective
+        if type(objective) is cvxpy_obj:
+            objective = objective.value
         new_constr = []
         if self.action == MINIMIZE:
-            new_constr += [compare(new_p.objective,LESS_EQUALS,right)]
+            new_constr += [compare(objective,LESS_EQUALS,right)]
         else:
-            new_constr += [compare(new_p.objective,GREATER_EQUALS,right)]
+            new_constr += [compare(objective,GREATER_EQUALS,right)]
         new_constr += new_p.constraints
 
         # Return constraints
-- 
2.43.0


From c5aed35e71e3e36222eefea700129cb6877faece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 44/58] fix: cvxpy_tdr programs used more than once in an
 expression shared their internal variables

---
 src/pydsm/cvxpy_tdr/programs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index ad6ff1e..bc23a4b 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -340,6 +340,11 @@ class cvxpy_program(object):
         replace_map = {}
         for k in range(0,len(args),1):
             replace_map[args_ref[k]] = args[k]
+
+        # Variables that are not formals are private to each use
+        for v in self.variables:
+            if v not in replace_map.keys():
+                replace_map[v] = cvxpy_scalar_var()
         new_p = cvxpy_program(self.action,
                               re_eval(self.objective,replace_map),
                               re_eval(self.constraints,replace_map),
-- 
2.43.0


From c0b9856de58e24e3f7bf4ed9c6e73c21d845ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 45/58] fix: cvxpy_tdr programs with a constant objective were
 solved to 0

---
 src/pydsm/cvxpy_tdr/procedures/solve_prog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
index 9f2306d..b991985 100644
--- a/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
+++ b/src/pydsm/cvxpy_tdr/procedures/solve_prog.py
@@ -62,5 +62,10 @@ def solve_prog(p,quiet):
     else:
         obj =sol[PRIMAL_OBJECTIVE]*sign
 
+    # A constant objective is not seen by the solver
+    if (p_expanded.objective.type == CONSTANT and
+        sol['status'] not in (PRIMAL_INFEASIBLE,DUAL_INFEASIBLE)):
+        obj = p_expanded.objective.value
+
     # Return optimal value
     return obj,valid
-- 
2.43.0


From 978fd00615c95f46cef41dc7f7b12ea9d188475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 46/58] fix: cvxpy_tdr.power_p never returned when given 0

---
 src/pydsm/cvxpy_tdr/functions/power_p.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pydsm/cvxpy_tdr/functions/power_p.py b/src/pydsm/cvxpy_tdr/functions/power_p.py
index fcf20b2..9d79ab0 100644
--- a/src/pydsm/cvxpy_tdr/functions/power_p.py
+++ b/src/pydsm/cvxpy_tdr/functions/power_p.py
@@ -73,10 +73,12 @@ def power_p(x,p):
     for i in range(0,arg.shape[0],1):
         for j in range(0,arg.shape[1],1):
             t = variable()
+            v = variable()
             z = variable()
             if p > 1.:
                 prog = program(minimize(t),
-                               [belongs(vstack((z,t)),
+                               [less_equals(z,v),
+                                belongs(vstack((v,t)),
                                         power_pos_epi(p)),
                                 greater_equals(z,0)],
                                [z],
-- 
2.43.0


From 0dab1d210996357b5e4a902263718a99ed0a9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 47/58] fix: cvxpy_tdr smooth constraints mentioning a variable
 more than once had wrong derivatives

---
 src/pydsm/cvxpy_tdr/sets/exp_cone.py          | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/kl_div_epi.py        | 14 +++++++-------
 src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py |  6 +++---
 src/pydsm/cvxpy_tdr/sets/power_pos_epi.py     |  6 +++---
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/sets/exp_cone.py b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
index bad3764..c082fbe 100644
--- a/src/pydsm/cvxpy_tdr/sets/exp_cone.py
+++ b/src/pydsm/cvxpy_tdr/sets/exp_cone.py
@@ -101,12 +101,12 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = np.exp((v*1.)/(y*1.))
+                g[mp[el[0,0]]] += np.exp((v*1.)/(y*1.))
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                g[mp[el[1,0]]] = np.exp(t)*(1-t)
+                g[mp[el[1,0]]] += np.exp(t)*(1-t)
             if type(el[2,0]) is cvxpy_scalar_var:
-                g[mp[el[2,0]]] = -1.
+                g[mp[el[2,0]]] += -1.
             return g
 
         # hess f
@@ -119,16 +119,16 @@ class cvxpy_exp_cone(object):
             if y is None:
                 y = x[mp[el[1,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = np.exp((v*1.)/(y*1.))/(y*1.)
+                h[mp[el[0,0]],mp[el[0,0]]] += np.exp((v*1.)/(y*1.))/(y*1.)
             if (type(el[0,0]) is cvxpy_scalar_var and
                 type(el[1,0]) is cvxpy_scalar_var):
                 t = (v*1.)/(y*1.)
                 w = -np.exp(t)*t/(y*1.)
-                h[mp[el[0,0]],mp[el[1,0]]] = w
-                h[mp[el[1,0]],mp[el[0,0]]] = w
+                h[mp[el[0,0]],mp[el[1,0]]] += w
+                h[mp[el[1,0]],mp[el[0,0]]] += w
             if type(el[1,0]) is cvxpy_scalar_var:
                 t = (v*1.)/(y*1.)
-                h[mp[el[1,0]],mp[el[1,0]]] = np.exp(t)*(t**2.)/(y*1.)
+                h[mp[el[1,0]],mp[el[1,0]]] += np.exp(t)*(t**2.)/(y*1.)
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
index 9b3ed3e..fe46190 100644
--- a/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/kl_div_epi.py
@@ -102,11 +102,11 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    g[mp[u[i,0]]] = np.log(u_i*1./v_i)
+                    g[mp[u[i,0]]] += np.log(u_i*1./v_i)
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    g[mp[v[i,0]]] = (-u_i*1./v_i)+1.
+                    g[mp[v[i,0]]] += (-u_i*1./v_i)+1.
             if type(t) is cvxpy_scalar_var:
-                g[mp[t]] = -1.
+                g[mp[t]] += -1.
             return g
 
         # hess f
@@ -122,14 +122,14 @@ class cvxpy_kl_div_epi(object):
                 else:
                     v_i = v[i,0]
                 if type(u[i,0]) is cvxpy_scalar_var:
-                    h[mp[u[i,0]],mp[u[i,0]]] = 1./u_i
+                    h[mp[u[i,0]],mp[u[i,0]]] += 1./u_i
                 if type(v[i,0]) is cvxpy_scalar_var:
-                    h[mp[v[i,0]],mp[v[i,0]]] = u_i*1./(v_i**2.)
+                    h[mp[v[i,0]],mp[v[i,0]]] += u_i*1./(v_i**2.)
                 if (type(u[i,0]) is cvxpy_scalar_var and
                     type(v[i,0]) is cvxpy_scalar_var):
                     w = -1./v_i
-                    h[mp[u[i,0]],mp[v[i,0]]] = w
-                    h[mp[v[i,0]],mp[u[i,0]]] = w
+                    h[mp[u[i,0]],mp[v[i,0]]] += w
+                    h[mp[v[i,0]],mp[u[i,0]]] += w
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
index ee90b06..70f7180 100644
--- a/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
+++ b/src/pydsm/cvxpy_tdr/sets/log_norm_cdf_hypo.py
@@ -88,9 +88,9 @@ class cvxpy_log_norm_cdf_hypo(object):
             if v is None:
                 v = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = -norm.pdf(v)/norm.cdf(v)
+                g[mp[el[0,0]]] += -norm.pdf(v)/norm.cdf(v)
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = 1.
+                g[mp[el[1,0]]] += 1.
             return g
 
         # hess f
@@ -103,7 +103,7 @@ class cvxpy_log_norm_cdf_hypo(object):
                 t = norm.pdf(v)
                 s = norm.cdf(v)
                 r = t/s
-                h[mp[el[0,0]],mp[el[0,0]]] = r **2.+v*r
+                h[mp[el[0,0]],mp[el[0,0]]] += r **2.+v*r
             return h
 
         # ind f
diff --git a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
index d5d2609..4e3cabc 100644
--- a/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
+++ b/src/pydsm/cvxpy_tdr/sets/power_pos_epi.py
@@ -89,9 +89,9 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                g[mp[el[0,0]]] = p*(z**(p-1.))
+                g[mp[el[0,0]]] += p*(z**(p-1.))
             if type(el[1,0]) is cvxpy_scalar_var:
-                g[mp[el[1,0]]] = -1.
+                g[mp[el[1,0]]] += -1.
             return g
 
         # hess f
@@ -101,7 +101,7 @@ class cvxpy_power_pos_epi(object):
             if z is None:
                 z = x[mp[el[0,0]]]
             if type(el[0,0]) is cvxpy_scalar_var:
-                h[mp[el[0,0]],mp[el[0,0]]] = p*(p-1.)*(z**(p-2.))
+                h[mp[el[0,0]],mp[el[0,0]]] += p*(p-1.)*(z**(p-2.))
             return h
 
         # ind f
-- 
2.43.0


From d91018d9048aaf038fd42b4d0dafb8a4f9b4b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 48/58] fix: test() split a single test given as a string into
 characters

---
 src/pydsm/_pytesttester.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pydsm/_pytesttester.py b/src/pydsm/_pytesttester.py
index 7ed8af7..d70be5b 100644
--- a/src/pydsm/_pytesttester.py
+++ b/src/pydsm/_pytesttester.py
@@ -184,6 +184,8 @@ class PytestTester:
 
         if tests is None:
             tests = [self.module_name]
+        elif isinstance(tests, str):
+            tests = [tests]
 
         pytest_args += ["--pyargs"] + list(tests)
 
-- 
2.43.0


From cbbdb87523aa6d238e2bfee606359df248b9974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 49/58] fix: programs with parameters of their own could not be
 used in other programs

---
 src/pydsm/cvxpy_tdr/programs.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pydsm/cvxpy_tdr/programs.py b/src/pydsm/cvxpy_tdr/programs.py
index bc23a4b..a341d06 100644
--- a/src/pydsm/cvxpy_tdr/programs.py
+++ b/src/pydsm/cvxpy_tdr/programs.py
@@ -345,6 +345,13 @@ class cvxpy_program(object):
         for v in self.variables:
             if v not in replace_map.keys():
                 replace_map[v] = cvxpy_scalar_var()
+
+        # Parameters that are not formals take their current values
+        for param in self.parameters:
+            if param not in replace_map.keys():
+                if np.isnan(param.value):
+                    raise ValueError('Invalid parameter value: NaN')
+                replace_map[param] = param.value
         new_p = cvxpy_program(self.action,
                               re_eval(self.objective,replace_map),
                               re_eval(self.constraints,replace_map),
-- 
2.43.0


From 5bcca80d39b52a7bb9e8f435b5fff68c3bd60f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 50/58] fix: compiled simulateDSM backends failed on order 0

---
 src/pydsm/delsig/_simulateDSM_cblas.pyx      | 9 +++++++--
 src/pydsm/delsig/_simulateDSM_scipy_blas.pyx | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pydsm/delsig/_simulateDSM_cblas.pyx b/src/pydsm/delsig/_simulateDSM_cblas.pyx
index ee650e9..35b21c7 100644
--- a/src/pydsm/delsig/_simulateDSM_cblas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_cblas.pyx
@@ -172,12 +172,17 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     # y0 is output before the quantizer
     cdef np.ndarray y0 = np.empty(nq, dtype=np.float64)
+    # Leading dimension for the matrices with a column per state
+    cdef int ld = max(order, 1)
 
     cdef int i
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
+        if order == 0:
+            # BLAS leaves y0 alone
+            y0.fill(0.)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, order,\
-            1.0, dbldata(C), order, \
+            1.0, dbldata(C), ld, \
             dbldata(c_x0), 1, \
             0.0, dbldata(y0), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, nq, nu,\
@@ -194,7 +199,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, order,\
-            1.0, dbldata(A), order, \
+            1.0, dbldata(A), ld, \
             dbldata(c_x0), 1,\
             0.0, dbldata(c_x0_temp), 1)
         cblas_dgemv(CblasRowMajor, CblasNoTrans, order, nu,\
diff --git a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
index 35c06c5..2aab022 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
+++ b/src/pydsm/delsig/_simulateDSM_scipy_blas.pyx
@@ -175,6 +175,8 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
 
     # y0 is output before the quantizer
     cdef np.ndarray y0 = np.empty(nq, dtype=np.float64)
+    # Leading dimension for the matrices with a column per state
+    cdef int ld = max(order, 1)
 
     cdef int i
     cdef int one=1
@@ -182,8 +184,11 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
     cdef double zerodot = 0.0
     for i in xrange(N):
         # Compute y0 = np.dot(C, c_x0) + np.dot(D1, u[:, i])
+        if order == 0:
+            # BLAS leaves y0 alone
+            y0.fill(0.)
         dgemv('T', &order, &nq,\
-            &onedot, dbldata(C), &order, \
+            &onedot, dbldata(C), &ld, \
             dbldata(c_x0), &one, \
             &zerodot, dbldata(y0), &one)
         dgemv('T', &nu, &nq,\
@@ -200,7 +205,7 @@ def simulateDSM(u, arg2, nlev=2, x0=0,
         # Compute c_x0 = np.dot(A, c_x0) +
         #   np.dot(B, np.vstack((u[:, i], v[:, i])))
         dgemv('T', &order, &order,\
-            &onedot, dbldata(A), &order, \
+            &onedot, dbldata(A), &ld, \
             dbldata(c_x0), &one,\
             &zerodot, dbldata(c_x0_temp), &one)
         dgemv('T', &nu, &order,\
-- 
2.43.0


From 7aab917da2704093aadf662645b339a2f4f744e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:56 +0000
Subject: [PATCH 51/58] fix: cvxpy_tdr solves in different threads mixed up
 their options

---
 src/pydsm/cvxpy_tdr/procedures/call_solver.py | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/pydsm/cvxpy_tdr/procedures/call_solver.py b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
index 602ecd4..c0e6689 100644
--- a/src/pydsm/cvxpy_tdr/procedures/call_solver.py
+++ b/src/pydsm/cvxpy_tdr/procedures/call_solver.py
@@ -67,22 +67,18 @@ def call_solver(p,quiet):
     # Construct F
     F = construct_F(constr_list._get_ineq_in(),var_to_index,n)
 
-    # Call cvxopt, that takes its options from a global dictionary
-    saved_options = dict(solvers.options)
-    solvers.options['maxiters'] = p.options['maxiters']
-    solvers.options['abstol'] = p.options['abstol']
-    solvers.options['reltol'] = p.options['reltol']
-    solvers.options['feastol'] = p.options['feastol']
-    solvers.options['show_progress'] = not quiet
+    # Call cvxopt
+    options = dict(solvers.options)
+    options['maxiters'] = p.options['maxiters']
+    options['abstol'] = p.options['abstol']
+    options['reltol'] = p.options['reltol']
+    options['feastol'] = p.options['feastol']
+    options['show_progress'] = not quiet
     dims = {'l':dim_l, 'q':dim_q, 's':dim_s}
-    try:
-        if F is None:
-            r =  solvers.conelp(c,G,h,dims,A,b)
-        else:
-            r =  solvers.cpl(c,F,G,h,dims,A,b)
-    finally:
-        solvers.options.clear()
-        solvers.options.update(saved_options)
+    if F is None:
+        r =  solvers.conelp(c,G,h,dims,A,b,options=options)
+    else:
+        r =  solvers.cpl(c,F,G,h,dims,A,b,options=options)
 
     # Store numerical values
     if r['status'] != PRIMAL_INFEASIBLE:
-- 
2.43.0


From c9640fbab30f0f80e0918500b44f3ee80f3d56f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 52/58] fix: correlations of integer samples overflowed

---
 src/pydsm/correlations.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pydsm/correlations.py b/src/pydsm/correlations.py
index ffd8e7f..f085c3f 100644
--- a/src/pydsm/correlations.py
+++ b/src/pydsm/correlations.py
@@ -49,6 +49,12 @@ if sys.version_info < (3,):
 __all__ = ["raw_acorr", "raw_xcorr"]
 
 
+def _samples(x):
+    """Returns x as an array where products and sums do not overflow."""
+    x = np.asarray(x)
+    return x.astype(float) if x.dtype.kind in 'biu' else x
+
+
 def raw_acorr(x, N):
     """
     Computes the raw autocorrelation of a vector up to lag N.
@@ -74,6 +80,7 @@ def raw_acorr(x, N):
     is responsibility of the user to assure that len(x)>=N. In some cases
     (but only in some cases), zero padding is practiced.
     """
+    x = _samples(x)
     m = len(x)
     q = np.asarray([np.dot(x[k:m], x[0:m-k]) for k in range(N+1)])
     return q
@@ -106,6 +113,7 @@ def raw_xcorr(x, y, N):
     is responsibility of the user to assure that N<=len(y). In some cases
     (but only in some cases), zero padding is assumed.
     """
+    x, y = _samples(x), _samples(y)
     mx = len(x)
     my = len(y)
     q = np.asarray([np.dot(y[k:min(my, mx+k)],
-- 
2.43.0


From 542ddc293e7d5e1992cede343fa26c1be585bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 53/58] fix: evalTF and evalRPoly overflowed with integer
 points

---
 src/pydsm/delsig/_tf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pydsm/delsig/_tf.py b/src/pydsm/delsig/_tf.py
index bfea06c..482af4a 100644
--- a/src/pydsm/delsig/_tf.py
+++ b/src/pydsm/delsig/_tf.py
@@ -57,6 +57,12 @@ import numpy as np
 __all__ = ["evalTF", "evalRPoly"]
 
 
+def _points(x):
+    """Returns x as an array where integer powers do not overflow."""
+    x = np.asarray(x)
+    return x.astype(float)[()] if x.dtype.kind in 'biu' else x[()]
+
+
 def evalTF(tf, x):
     """
     Evaluates a transfer function.
@@ -89,6 +95,7 @@ def evalTF(tf, x):
     so that the last coefficient is in fact the constant term in the
     numerator/denominator polynomial.
     """
+    x = _points(x)
     if len(tf) == 3:
         retval = np.asarray(evalRPoly(tf[0], x, tf[2]))/evalRPoly(tf[1], x, 1)
     elif len(tf) == 2:
@@ -118,6 +125,7 @@ def evalRPoly(roots, x, k=1):
     y : ndarray
         value of polynomial at the given complex values.
     """
+    x = _points(x)
     y = k*np.ones_like(x)
     roots = np.asarray(roots)
     # Remove roots at infinity
-- 
2.43.0


From b4f4ab39c166bfd86efbfff8311520c11af3d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:43 +0000
Subject: [PATCH 54/58] fix: decibel conversions of small integer types lost
 precision or overflowed

---
 src/pydsm/delsig/_decibel.py | 18 ++++++++++++------
 src/pydsm/relab.py           |  4 ++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pydsm/delsig/_decibel.py b/src/pydsm/delsig/_decibel.py
index 1c98563..9949689 100644
--- a/src/pydsm/delsig/_decibel.py
+++ b/src/pydsm/delsig/_decibel.py
@@ -59,6 +59,12 @@ import numpy as np
 __all__ = ["dbv", "dbp", "dbm", "undbv", "undbp", "undbm"]
 
 
+def _as_float(x):
+    """Returns x as an array where integers are converted to floats."""
+    x = np.asarray(x)
+    return x.astype(float) if x.dtype.kind in 'biu' else x
+
+
 def dbv(x):
     """
     Converts a voltage (or current) ratio to dB.
@@ -73,7 +79,7 @@ def dbv(x):
     y : real or array_like of reals
         20*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(_as_float(x)))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 20*np.log10(x[nonzero])
@@ -94,7 +100,7 @@ def dbp(x):
     y : real or array_like of reals
         10*log10(x)
     """
-    x = np.asarray(np.abs(x))
+    x = np.asarray(np.abs(_as_float(x)))
     y = np.asarray(-np.inf*np.ones_like(x))
     nonzero = np.asarray(x != 0)
     y[nonzero] = 10*np.log10(x[nonzero])
@@ -118,7 +124,7 @@ def dbm(v, R=50.):
         dBm value corresponding to the power provided by the rms voltag v
         on the test resistor R, normalized over the reference value of 1mW
     """
-    v = np.asarray(np.abs(v))
+    v = np.asarray(np.abs(_as_float(v)))
     y = np.asarray(-np.inf*np.ones_like(v))
     nonzero = np.asarray(v != 0)
     y[nonzero] = 10*np.log10(v[nonzero]**2/R)+30
@@ -141,7 +147,7 @@ def undbv(x):
     y : real or array_like of reals
         10^(x/20)
     """
-    return 10**(np.asarray(x)/20.)
+    return 10**(_as_float(x)/20.)
 
 
 def undbp(x):
@@ -160,7 +166,7 @@ def undbp(x):
     y : real or array_like of reals
         10^(x/10)
     """
-    return 10**(np.asarray(x)/10.)
+    return 10**(_as_float(x)/10.)
 
 
 def undbm(x, R=50.):
@@ -182,4 +188,4 @@ def undbm(x, R=50.):
         rms voltage that applied over a resistor R gives a power equal to x
         in dBm (i.e. referred to 1mW)
     """
-    return np.sqrt(R*10**((np.asarray(x)-30)/10.))
+    return np.sqrt(R*10**((_as_float(x)-30)/10.))
diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 4809991..5bb9707 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -112,6 +112,10 @@ def db(x, signal_type='voltage', R=1):
     The default R value assures that when signal_type is 'voltage' dB defaults
     to the classical 20*log10(x) computation.
     """
+    x = np.asarray(x)
+    if x.dtype.kind in 'biu':
+        # Logarithms and squares need more than the precision of small integers
+        x = x.astype(float)
     if signal_type == 'power':
         return 10*np.log10(x)
     else:
-- 
2.43.0


From 50cbbdb9fdf8fdcacd137081fcbbf90fa99a72f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:04 +0000
Subject: [PATCH 55/58] fix: audio weightings overflowed on integer frequencies

---
 src/pydsm/audio_weightings.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pydsm/audio_weightings.py b/src/pydsm/audio_weightings.py
index 99f775b..bff301d 100644
--- a/src/pydsm/audio_weightings.py
+++ b/src/pydsm/audio_weightings.py
@@ -193,6 +193,7 @@ def a_weighting(f, normal=True, power=True):
     """
     if power:
         return a_weighting(f, normal, power=False)**2
+    f = 1.*f
     w = (12200.0**2*f**4)/((f**2+20.6**2) *
                            np.sqrt((f**2+107.7**2) *
                            (f**2+737.9**2))*(f**2+12200.0**2))
@@ -224,6 +225,7 @@ def b_weighting(f, normal=True, power=True):
     """
     if power:
         return b_weighting(f, normal, power=False)**2
+    f = 1.*f
     w = (12200.0**2*f**3)/((f**2+20.6**2) *
                            np.sqrt(f**2+158.5**2)*(f**2+12200.0**2))
     return w if not normal else w*b_weighting_gain
@@ -254,6 +256,7 @@ def c_weighting(f, normal=True, power=True):
     """
     if power:
         return c_weighting(f, normal, power=False)**2
+    f = 1.*f
     w = (12200.0**2*f**2)/((f**2+20.6**2)*(f**2+12200.0**2))
     return w if not normal else w*c_weighting_gain
 
@@ -284,6 +287,7 @@ def d_weighting(f, normal=True, power=True):
     """
     if power:
         return d_weighting(f, normal, power=False)**2
+    f = 1.*f
 
     def h(f):
         return (((1037918.48-f**2)**2+1080768.16*f**2) /
-- 
2.43.0


From 757aeb24f85564013cd7d92cd33385542ec718a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 56/58] fix: ds_quantize overflowed on small integer types

---
 src/pydsm/delsig/_simulateDSM_scipy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pydsm/delsig/_simulateDSM_scipy.py b/src/pydsm/delsig/_simulateDSM_scipy.py
index d9f38cc..3f19cd2 100644
--- a/src/pydsm/delsig/_simulateDSM_scipy.py
+++ b/src/pydsm/delsig/_simulateDSM_scipy.py
@@ -227,6 +227,9 @@ def ds_quantize(y, n):
     n = np.reshape(n, -1)
     shape = np.shape(y)
     y = np.reshape(y, (n.size, -1))
+    if y.dtype.kind in 'biu':
+        # Room for levels beyond the range of small integer types
+        y = y.astype(np.int64)
     v = np.empty_like(y)
     for qi in range(np.size(n)):
         if np.remainder(n[qi], 2) == 0:
-- 
2.43.0


From 2b2e89adac152a9ccd2a254d80a3c57136f586eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:21 +0000
Subject: [PATCH 57/58] fix: shiftdim took away empty leading dimensions

---
 src/pydsm/relab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/relab.py b/src/pydsm/relab.py
index 5bb9707..d3e0da0 100644
--- a/src/pydsm/relab.py
+++ b/src/pydsm/relab.py
@@ -174,7 +174,7 @@ def shiftdim(x, n=None, nargout=2):
     outsel = slice(nargout) if nargout > 1 else 0
     x = np.asarray(x)
     s = x.shape
-    m = next((i for i, v in enumerate(s) if v > 1), 0)
+    m = next((i for i, v in enumerate(s) if v != 1), 0)
     if n is None:
         n = m
     if n > 0:
-- 
2.43.0


From 658866dee6cc65296b4af27b31ab90d030cb2aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 58/58] fix: imaginary axis of pole-zero plots misplaced

---
 src/pydsm/delsig/_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pydsm/delsig/_plot.py b/src/pydsm/delsig/_plot.py
index 9380b2a..e1d3b49 100644
--- a/src/pydsm/delsig/_plot.py
+++ b/src/pydsm/delsig/_plot.py
@@ -114,7 +114,7 @@ def plotPZ(H, color='b', markersize=5, showlist=False):
     plt.plot(circle.real, circle.imag, 'k')
     plt.axis('equal')
     limits = plt.axis()
-    plt.plot([0, 0], limits[1:3], 'k:')
+    plt.plot([0, 0], limits[2:4], 'k:')
     plt.plot(limits[0:2], [0, 0], 'k:')
 
     if showlist:
-- 
2.43.0

