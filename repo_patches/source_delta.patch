From b07cb4d255c9eb08c4d02108fffd461e5e8fbab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 01/36] fix: solve and reconstruct at latitude 0

The clamp to +-5 degrees used sign(lat), which is 0 on the equator, so the
diurnal nodal correction divided by zero and the fit failed.
---
 utide/harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/harmonics.py b/utide/harmonics.py
index 33680d3..110e880 100644
--- a/utide/harmonics.py
+++ b/utide/harmonics.py
@@ -119,7 +119,8 @@ def FUV(t, tref, lind, lat, ngflgs):
         astro, ader = ut_astron(tt)
 
         if abs(lat) < 5:
-            lat = np.sign(lat) * 5
+            # Stay away from the singularity at the equator itself.
+            lat = 5 if lat >= 0 else -5
 
         slat = np.sin(np.deg2rad(lat))
         rr = sat.amprat.copy()
-- 
2.43.0


From 4ed1399c5fa0fab4853b56d8cf6c17daff3e1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 02/36] fix: andrews, huber and logistic robust weight
 functions

They applied the builtin max() to arrays, which raises ValueError; logistic
also took its floor from np.single(1), i.e. 1, instead of the spacing at 1.
---
 utide/robustfit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 8f19a20..a59d0ac 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -11,7 +11,7 @@ from utide.utilities import Bunch
 # Weighting functions:
 def andrews(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.spacing(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = (r < np.pi) * np.sin(r) / r
     return w
 
@@ -34,13 +34,13 @@ def fair(r):
 
 
 def huber(r):
-    w = 1 / max(1, np.abs(r))
+    w = 1 / np.maximum(1, np.abs(r))
     return w
 
 
 def logistic(r):
     r = np.abs(r)
-    r = max(np.sqrt(np.single(1)), r)
+    r = np.maximum(np.sqrt(np.spacing(1)), r)
     w = np.tanh(r) / r
     return w
 
-- 
2.43.0


From 851235a74ce12b98a8d4d969ecc49cc73adaa5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 03/36] fix: infer option as a plain dict, and its key check

A dict, which is documented, raised AttributeError, and the caller's object
was modified.  A missing key was not always detected, and when it was the
message itself failed with a TypeError.
---
 utide/_solve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 1011d64..5fcc049 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -89,9 +89,9 @@ def validate_infer(infer, is_2D):
     if infer is None or infer == "none":
         return None
     required_keys = {"inferred_names", "reference_names", "amp_ratios", "phase_offsets"}
-    keys = set(infer.keys())
-    if keys < required_keys:
-        raise ValueError(f"infer option must include {required_keys:s}")
+    infer = Bunch(infer)  # Accept any dict, and leave the caller's alone.
+    if not required_keys <= set(infer.keys()):
+        raise ValueError(f"infer option must include {sorted(required_keys)}")
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
-- 
2.43.0


From 2672d3baaeae9d8309fcca38b547951d28f38594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 04/36] fix: accept any array_like t, u, v and any sequence of
 constituents

Lists were rejected for lack of a shape attribute, and numpy arrays of names
(such as coef.name) failed when compared with an option string.
---
 utide/_solve.py                | 7 ++++++-
 utide/constituent_selection.py | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 5fcc049..bdb13f6 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -112,7 +112,7 @@ def validate_order_constit(arg, have_snr):
     if isinstance(arg, str) and arg in available:
         return arg
     if not isinstance(arg, str) and np.iterable(arg):
-        return arg  # TODO: add checking of its elements
+        return list(arg)  # TODO: add checking of its elements
     raise ValueError(
         f"order_constit must be one of {available} or"
         f" a sequence of constituents, not '{arg}'",
@@ -466,6 +466,11 @@ def _slvinit(tin, uin, vin, lat, **opts):
     if lat is None:
         raise ValueError("Latitude must be supplied")
 
+    tin = np.asanyarray(tin)
+    uin = np.asanyarray(uin)
+    if vin is not None:
+        vin = np.asanyarray(vin)
+
     # Supporting only 1-D arrays for now; we can add "group"
     # support later.
     if tin.shape != uin.shape or tin.ndim != 1 or uin.ndim != 1:
diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 451665c..3331318 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -42,7 +42,7 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     cnstit["NR"] = Bunch()
 
     # if incnstit.lower() == 'auto':
-    if incnstit == "auto":
+    if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
         cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
-- 
2.43.0


From 4dfe5ebd873dea7aa0b32ac3cfe666d2f00f4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 05/36] fix: honour the mask of a masked time array

The mask was dropped on conversion, so solve used samples whose time is
marked missing and reconstruct predicted for them.
---
 utide/_time_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 0550674..1565b4a 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -20,7 +20,7 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
 
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
-    date = np.asarray(date)
+    date = np.asanyarray(date)
 
     try:
         date = date.astype("datetime64[ms]")
@@ -61,7 +61,7 @@ def _normalize_time(t, epoch=None):
     `t` input time or datenum array
     `epoch` either 'python', 'matlab', or np.datetime64 compatible value
     """
-    t = np.asarray(t)
+    t = np.asanyarray(t)
 
     if epoch is None:
         # default datetime, datetime64, or datetime array
-- 
2.43.0


From 4abfb28c55d602c5f049322e94391bd0b070caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:02 +0000
Subject: [PATCH 06/36] fix: treat NaT as a missing time

NaT was converted to a huge negative day number, for which reconstruct
returned a finite, meaningless value.
---
 utide/_time_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 1565b4a..719a7bc 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -37,8 +37,10 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
         ) from err
 
     # datenum calculation
-    datenum = (date - epoch).astype(float) / _MS_PER_DAY
-    return datenum
+    elapsed = date - epoch
+    datenum = np.asanyarray(elapsed.astype(float) / _MS_PER_DAY)
+    datenum[np.isnat(elapsed)] = np.nan
+    return datenum[()]
 
 
 def _python_gregorian_datenum(date):
-- 
2.43.0


From 891a30f3832397df141192dd077bcde831d6a6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 07/36] fix: use the u residual spectrum in 2-D linear
 confidence limits

With coloured residuals only the v variances were scaled by their
band-averaged spectrum; the u variances kept the white-noise values, so the
limits changed when the axes were rotated by 90 degrees.
---
 utide/confidence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 567f0cf..1b0c3bb 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -247,6 +247,9 @@ def _confidence(
             else:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
+                    den = varXu + varYu
+                    varXu = Puu[c] * varXu / den
+                    varYu = Puu[c] * varYu / den
                     den = varXv + varYv
                     varXv = Pvv[c] * varXv / den
                     varYv = Pvv[c] * varYv / den
-- 
2.43.0


From d372ef0e6132d1d9d7964a9ff2f6fbfd278ab9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 08/36] fix: Monte Carlo limits of ellipses oriented near the x
 axis

Orientation has a period of 180 degrees, not 360, and its wrapping moves the
phase along with it.  With orientations near 0 the realizations split into
two groups, making g_ci up to 90 degrees or more whatever the noise.
---
 utide/confidence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 1b0c3bb..39bc080 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -345,7 +345,10 @@ def _confidence(
                     1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745
                 )  # noqa
                 theta[0] = coef.theta[c]
-                theta = cluster(theta, 360)
+                # (theta, g) and (theta + 180, g + 180) are the same ellipse.
+                wrapped = theta
+                theta = cluster(theta, 180)
+                g = g + (theta - wrapped)
                 coef.theta_ci[c] = (
                     1.96 * np.median(np.abs(theta - np.median(theta))) / 0.6745
                 )  # noqa
-- 
2.43.0


From 603d97331af0216b76d17bc84998cf1a9b03a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 09/36] fix: solve when every constituent is a reference or
 inferred one

An empty list of non-reference constituents became a float index array.
---
 utide/constituent_selection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 3331318..7811201 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -53,6 +53,9 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
         RI_index_set = {constit_index_dict[n] for n in RIset}
         cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
 
+    # Keep an integer type even if there is nothing left.
+    cnstit.NR.lind = np.asarray(cnstit.NR.lind, dtype=int)
+
     cnstit.NR.frq = freqs[cnstit.NR.lind]
     cnstit.NR.name = const.name[cnstit.NR.lind]
     nNR = len(cnstit.NR.frq)
-- 
2.43.0


From d39e22bb204615ddd9f125ea520dbe8e49d8faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 10/36] fix: approximate inference

It failed with 'setting an array element with a sequence', and its Q and
beta factors were never applied to the reference constituents.  Q is complex,
and a reference may have several inferred constituents.
---
 utide/_solve.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index bdb13f6..032dd8f 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -277,18 +277,18 @@ def _solv1(tin, uin, vin, lat, **opts):
 
         else:
             # Approximate inference.
-            Q = np.empty((coef.nR,), dtype=float)
-            beta = np.empty((coef.nR,), dtype=float)
+            Qbeta = []
 
             for k, ref in enumerate(cnstit.R):
                 E = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]
                 Etilp[:, k] = E
                 Etilm[:, k] = E
-                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args).real
-                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args).real
-                Q[k] = (num / den)[0, 0]
+                num = ut_E(tref, tref, ref.I.frq, ref.I.lind, *E_args)
+                den = ut_E(tref, tref, ref.frq, ref.lind, *E_args)
+                Q = (num / den)[0]
                 arg = np.pi * lor * 24 * (ref.I.frq - ref.frq) * (nt + 1) / nt
-                beta[k] = np.sin(arg) / arg
+                beta = np.sin(arg) / arg
+                Qbeta.append(Q * beta)
 
         B = np.hstack((B, Etilp, np.conj(Etilm)))
 
@@ -335,6 +335,12 @@ def _solv1(tin, uin, vin, lat, **opts):
     i0 = 2 * nNR + nR
     am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
 
+    if opt.infer is not None and opt.infer.approximate:
+        # Remove the inferred part from the reference coefficients.
+        for k, ref in enumerate(cnstit.R):
+            ap[nNR + k] /= 1 + (ref.I.Rp * Qbeta[k]).sum()
+            am[nNR + k] /= 1 + (ref.I.Rm * np.conj(Qbeta[k])).sum()
+
     Xu = np.real(ap + am)
     Yu = -np.imag(ap - am)
 
-- 
2.43.0


From cfdaffa5c1ae0fb99fc630196ba6936c386e9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 11/36] fix: pick the right covariances for confidence limits
 with inference

With inference the columns of the model array are not in the order that
the indices into its covariance matrix took for granted, so all limits,
also those of constituents that have nothing to do with it, were off by
about the square root of two.
---
 utide/confidence.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 39bc080..b039814 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -219,13 +219,16 @@ def _confidence(
     if not opt["white"]:
         varcov_mCc = np.copy(varcov_mCw)
 
+    # Columns of B with the positive and negative frequency of each constituent:
+    # those of the references, if any, come after all of the others.
+    ic = np.arange(nc)
+    ipos = np.where(ic < coef.nNR, ic, ic + coef.nNR)
+    ineg = np.where(ic < coef.nNR, ic + coef.nNR, ic + nc)
+
     for c in range(nc):
-        G = np.array(
-            [[Gall[c, c], Gall[c, c + nc]], [Gall[c + nc, c], Gall[c + nc, c + nc]]],
-        )
-        H = np.array(
-            [[Hall[c, c], Hall[c, c + nc]], [Hall[c + nc, c], Hall[c + nc, c + nc]]],
-        )
+        inds = np.ix_([ipos[c], ineg[c]], [ipos[c], ineg[c]])
+        G = Gall[inds]
+        H = Hall[inds]
         varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
         varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
 
-- 
2.43.0


From 1639e92622403f454a2832783650e69a8149f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 12/36] fix: confidence limits of inferred constituents

They were linearized around the coefficients of the reference constituent,
so that g_ci was too small by the amplitude ratio, and in the 1-D case the
fully correlated rotary coefficients were taken as independent.
---
 utide/confidence.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index b039814..63f7483 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -375,17 +375,35 @@ def _confidence(
                     varImap += 0.25 * varcov[nNR + k, 2, 2]
                 rp = ref.I.Rp
                 rm = ref.I.Rm
+                # Coefficients of the inferred constituents.
+                X, Y = Xu[nNR + k], Yu[nNR + k]
+                if opt.twodim:
+                    X, Y = X + 1j * Xv[nNR + k], Y + 1j * Yv[nNR + k]
+                apI = rp * (X - 1j * Y) / 2
+                amI = rm * (X + 1j * Y) / 2
+                XI, YI = apI + amI, 1j * (apI - amI)
+                if not opt.twodim:
+                    XI, YI = XI.real, YI.real
+                    # ap and am are conjugates, not independent.
+                    varReap *= 2
+                    varImap *= 2
                 varXuHH = (rp.real**2 + rm.real**2) * varReap + (
                     rp.imag**2 + rm.imag**2
                 ) * varImap
                 varYuHH = (rp.real**2 + rm.real**2) * varImap + (
                     rp.imag**2 + rm.imag**2
                 ) * varReap
-                for varX, varY in zip(varXuHH, varYuHH, strict=False):
+                for X, Y, varX, varY in zip(
+                    XI,
+                    YI,
+                    varXuHH,
+                    varYuHH,
+                    strict=False,
+                ):
                     if not opt.twodim:
                         sig1, sig2 = ut_linci(
-                            Xu[nNR + k],
-                            Yu[nNR + k],
+                            X,
+                            Y,
                             np.sqrt(varX),
                             np.sqrt(varY),
                         )
@@ -393,8 +411,8 @@ def _confidence(
                         coef.g_ci[ind] = 1.96 * sig2
                     else:
                         sig1, sig2 = ut_linci(
-                            Xu[nNR + k] + 1j * Xv[nNR + k],
-                            Yu[nNR + k] + 1j * Yv[nNR + k],
+                            X,
+                            Y,
                             np.sqrt(varX) + 1j * np.sqrt(varY),
                             np.sqrt(varY) + 1j * np.sqrt(varX),
                         )
-- 
2.43.0


From b5a21fc71cba05ae9c70f7bab30abb2814d667bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 13/36] fix: robust scale estimate of 2-D residuals

The median of complex residuals takes the imaginary part of whichever sample
has the median real part.  When that was an outlier the scale exploded, and
method='robust' no longer rejected any outlier.
---
 utide/robustfit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a59d0ac..a3d8340 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -91,7 +91,10 @@ def sigma_hat(x):
     Robust estimate of standard deviation based on medians.
     """
     # The center could be based on the mean or some other function.
-    return np.median(np.abs(x - np.median(x))) / 0.6745
+    # np.median sorts complex numbers by their real parts only, returning an
+    # arbitrary imaginary part, so handle the components separately.
+    center = np.median(np.real(x)) + 1j * np.median(np.imag(x))
+    return np.median(np.abs(x - center)) / 0.6745
 
 
 def leverage(x):
-- 
2.43.0


From 5bcbbaa2e2c9ff9ed6d6819478abfd6d7f4aa69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 14/36] fix: robustfit's rms_resid and w belong to the returned
 solution

rms_resid was taken from the iteration before the last, and if maxit was
reached, w was the weights of the next, never computed, iteration.
---
 utide/robustfit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index a3d8340..b00aec3 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -246,7 +246,9 @@ def robustfit(
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
+        w = oldw  # The weights that gave b.
 
+    resid = y - np.dot(X, b)
     rms_resid = np.sqrt(np.mean(np.abs(resid) ** 2))
 
     out.update(
-- 
2.43.0


From 6296a011e75e21e75c836a463854da88a9f3d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 15/36] fix: string representation of an empty Bunch

str(Bunch()) raised ValueError.
---
 utide/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 0c83749..342df93 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -94,8 +94,8 @@ class Bunch(dict):
             klens.append(lenk)
             vlens.append(lenv)
 
-        klen = min(20, max(klens))
-        vlen = min(40, max(vlens))
+        klen = min(20, max(klens, default=0))
+        vlen = min(40, max(vlens, default=0))
         slist = [fmt.format(key, value, klen=klen, vlen=vlen) for key, value in items]
         return "".join(slist)
 
-- 
2.43.0


From 4291a84edd5fd449f14cb2fa0fe5f757b2a695a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:36 +0000
Subject: [PATCH 16/36] fix: Monte Carlo limits where there is no residual
 spectrum

---
 utide/confidence.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/confidence.py b/utide/confidence.py
index 63f7483..f4eba9c 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -271,6 +271,11 @@ def _confidence(
                 coef["g_ci"][c] = 1.96 * np.real(sig2)
                 coef["theta_ci"][c] = 1.96 * np.imag(sig2)
 
+        elif not opt.white and np.isnan(Puu[c]):
+            # No residual spectrum here, e.g. beyond the Nyquist frequency:
+            # leave the limits missing, as in the linearized case.
+            continue
+
         else:  # Monte Carlo.
             covXuYu = np.imag(H[0, 0] - H[0, 1] + H[1, 0] - H[1, 1]) / 2
             Duu = np.array([[varXu, covXuYu], [covXuYu, varYu]])
-- 
2.43.0


From e5f713e3dc51b265e88a0286659f1f924f3ff2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 17/36] fix: confidence limits of robust solutions use the
 weights of the fit

---
 utide/_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 032dd8f..02ee448 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -410,7 +410,7 @@ def _solv1(tin, uin, vin, lat, **opts):
             elor,
             xraw,
             xmod,
-            W,
+            W**2,  # The fit minimizes the sum of squares of W * residual.
             m,
             B,
             Xu,
-- 
2.43.0


From 726fed02dc0b9bb43486f185d26ffdad0df32096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 18/36] fix: confidence limits where a component has no
 residual

When a component (v of a current along the x axis, say) or the whole
record is fitted exactly, coloured limits divided the residual spectrum by
a total variance of zero, and rounding could make the variances themselves
negative: linear limits of all ellipse parameters were NaN, so that
reconstruct dropped the constituents, and Monte Carlo ones raised
LinAlgError.
---
 utide/confidence.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index f4eba9c..23c030e 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -145,6 +145,14 @@ def nearestSPD(A):
     return Ahat
 
 
+def _rescaled(var, total, power):
+    """
+    Variances adding up to total, rescaled to add up to power.
+    """
+    # Without any residual in a component, both are zero.
+    return power * var / total if total != 0 else 0 * var
+
+
 def _confidence(
     coef,
     cnstit,
@@ -229,20 +237,21 @@ def _confidence(
         inds = np.ix_([ipos[c], ineg[c]], [ipos[c], ineg[c]])
         G = Gall[inds]
         H = Hall[inds]
-        varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2
-        varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2
+        # Rounding may leave slightly negative variances where there is no residual.
+        varXu = max(np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2, 0)
+        varYu = max(np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2, 0)
 
         if opt["twodim"]:
-            varXv = np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2
-            varYv = np.real(G[0, 0] + G[1, 1] - 2 * G[0, 1]) / 2
+            varXv = max(np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2, 0)
+            varYv = max(np.real(G[0, 0] + G[1, 1] - 2 * G[0, 1]) / 2, 0)
 
         if opt["linci"]:  # Linearized.
             if not opt["twodim"]:
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu]))
                 if not opt["white"]:
                     den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
+                    varXu = _rescaled(varXu, den, Puu[c])
+                    varYu = _rescaled(varYu, den, Puu[c])
                     varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
                 sig1, sig2 = ut_linci(Xu[c], Yu[c], np.sqrt(varXu), np.sqrt(varYu))
                 coef["A_ci"][c] = 1.96 * sig1
@@ -251,11 +260,11 @@ def _confidence(
                 varcov_mCw[c, :, :] = np.diag(np.array([varXu, varYu, varXv, varYv]))
                 if not opt["white"]:
                     den = varXu + varYu
-                    varXu = Puu[c] * varXu / den
-                    varYu = Puu[c] * varYu / den
+                    varXu = _rescaled(varXu, den, Puu[c])
+                    varYu = _rescaled(varYu, den, Puu[c])
                     den = varXv + varYv
-                    varXv = Pvv[c] * varXv / den
-                    varYv = Pvv[c] * varYv / den
+                    varXv = _rescaled(varXv, den, Pvv[c])
+                    varYv = _rescaled(varYv, den, Pvv[c])
                     varcov_mCc[c, :, :] = np.diag(
                         np.array([varXu, varYu, varXv, varYv]),
                     )
@@ -282,7 +291,7 @@ def _confidence(
             varcov_mCw[c, :2, :2] = Duu
 
             if not opt.white:
-                Duu = Puu[c] * Duu / np.trace(Duu)
+                Duu = _rescaled(Duu, np.trace(Duu), Puu[c])
                 varcov_mCc[c, :2, :2] = Duu
 
             if not opt.twodim:
@@ -314,7 +323,7 @@ def _confidence(
                 varcov_mCw[c, 2:, 2:] = Dvv
 
                 if not opt.white:
-                    Dvv = Pvv[c] * Dvv / np.trace(Dvv)
+                    Dvv = _rescaled(Dvv, np.trace(Dvv), Pvv[c])
                     varcov_mCc[c, 2:, 2:] = Dvv
                 covXuXv = np.imag(-H[0, 0] - H[0, 1] - H[1, 0] - H[1, 1]) / 2
                 covXuYv = np.real(G[0, 0] - G[1, 1]) / 2
-- 
2.43.0


From 7656a25c2aec4dcd02ea5ba69785f572d4f0de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 19/36] fix: robust fits of exact data

The residuals were divided by their median-based scale even when it is
zero, giving NaN weights and LinAlgError.
---
 utide/robustfit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index b00aec3..c100c3c 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -115,11 +115,11 @@ def leverage(x):
     return np.abs(hdiag)
 
 
-def r_normed(R, rfac):
+def r_normed(R, rfac, min_scale=0):
     """
     Normalized residuals from raw residuals and a multiplicative factor.
     """
-    return rfac * R / sigma_hat(R)
+    return rfac * R / max(sigma_hat(R), min_scale)
 
 
 def robustfit(
@@ -204,6 +204,11 @@ def robustfit(
     iterations = 0  # 1-based iteration exit number
     w = np.ones(y.shape)
 
+    # As in Matlab's robustfit: with a (nearly) perfect fit, the scale of
+    # the residuals says nothing about outliers, so do not let it get below
+    # a small fraction of that of the data.
+    min_scale = 1e-6 * np.std(y) or 1
+
     for i in range(maxit):
         wX = w[:, np.newaxis] * X
         wy = w * y
@@ -242,7 +247,7 @@ def robustfit(
         resid = y - np.dot(X, b)
 
         # Update weights based on these residuals.
-        w = _wfunc(r_normed(resid, rfac))
+        w = _wfunc(r_normed(resid, rfac, min_scale))
 
     if iterations == 0:
         iterations = maxit  # Did not converge.
-- 
2.43.0


From e0a0725ccf5baa1cc277bc4956bb25bd44162079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 20/36] fix: robust fits where too few samples keep any weight

Weight functions with a cut-off may drop nearly all samples, of a record
with a step for example; the next fit is then rank deficient and has no
residual sum of squares (IndexError).  Keep the last solution, as when an
iteration makes things worse.
---
 utide/robustfit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index c100c3c..11247c4 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -213,6 +213,13 @@ def robustfit(
         wX = w[:, np.newaxis] * X
         wy = w * y
         b, rsumsq, rank, sing = np.linalg.lstsq(wX, wy, rcond)
+        if rank < p and oldlstsq is not None:
+            # Too few samples have kept any weight.
+            b, rsumsq, rank, sing = oldlstsq
+            w = oldw
+            iterations = i
+            break
+
         rsumsq = rsumsq[0]
         if i == 0:
             rms_resid = np.sqrt(rsumsq / n)
-- 
2.43.0


From 54ec7622814019335fbe68df2acceef1f252428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 21/36] fix: records whose samples are not in chronological
 order

The reference time was taken from the first and last sample, and the residual
spectrum from a series in the order given: a record in reverse order had NaN
limits, so that reconstruct dropped the tide.
---
 utide/_solve.py     | 6 +++---
 utide/confidence.py | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 02ee448..8c3f5eb 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -525,18 +525,18 @@ def _slvinit(tin, uin, vin, lat, **opts):
 
     # Are the times equally spaced?
     eps = np.finfo(np.float64).eps
-    if np.var(np.unique(np.diff(tin))) < eps:
+    if np.var(np.unique(np.diff(np.sort(tin)))) < eps:
         opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
         lor = np.ptp(tin)
         ntgood = len(tin)
         elor = lor * ntgood / (ntgood - 1)
-        tref = 0.5 * (tin[0] + tin[-1])
+        tref = 0.5 * (tin.min() + tin.max())
     else:
         opt["equi"] = False
         lor = np.ptp(t)
         nt = len(t)
         elor = lor * nt / (nt - 1)
-        tref = 0.5 * (t[0] + t[-1])
+        tref = 0.5 * (t.min() + t.max())
 
     # Options.
     opt["conf_int"] = True
diff --git a/utide/confidence.py b/utide/confidence.py
index 23c030e..6f869a9 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -18,6 +18,9 @@ from utide.utilities import complex_interp
 def band_averaged_psd_by_constit(tin, t, e, elor, coef, opt):
     # Band-averaged (ba) spectral densities at each constituent freq.
     constits = coef.aux.frq
+    # Spectra are of chronological series, whatever the order of the samples.
+    order = np.argsort(t, kind="stable")
+    t, e, tin = t[order], e[order], np.sort(tin)
     if opt.equi:
         e_ = e
         if len(tin) > len(t):
-- 
2.43.0


From eace748274e3459c3c050f37e62a36f82031cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 22/36] fix: missing times among time zone aware or other date
 objects

---
 utide/_time_conversion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index 719a7bc..f215176 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -21,6 +21,11 @@ def _date2num(date, epoch="1970-01-01 00:00:00.000"):
     Default `epoch` is the unix epoch 1970-01-01 00:00:00.
     """
     date = np.asanyarray(date)
+    if date.dtype == object:
+        # Missing times among objects may be NaN or pandas' NaT; numpy converts None.
+        date = date.copy()
+        data = np.ma.getdata(date)
+        data[data != data] = None
 
     try:
         date = date.astype("datetime64[ms]")
-- 
2.43.0


From 224cff788b6ccf29772062622dadb3d2789da4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 23/36] fix: unknown method, phase and nodal strings were taken
 for others

method="OLS" gave a robust fit, phase="Raw" Greenwich phases and nodal="none"
corrections at exact times. Raise ValueError instead.
---
 utide/_solve.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 8c3f5eb..0a4be2a 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -35,6 +35,16 @@ def _process_opts(opts, is_2D):
     newopts = Bunch(default_opts)
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
+    for name, choices in (
+        ("method", ("ols", "robust")),
+        ("phase", ("Greenwich", "linear_time", "raw")),
+    ):
+        if newopts[name] not in choices:
+            raise ValueError(f"{name} must be one of {choices}, not {newopts[name]!r}")
+    if isinstance(newopts.nodal, str) and newopts.nodal != "linear_time":
+        raise ValueError(
+            f"nodal must be True, False or 'linear_time', not {newopts.nodal!r}",
+        )
     newopts.infer = validate_infer(newopts.infer, is_2D)
     snr = newopts.conf_int != "none"
     newopts.order_constit = validate_order_constit(newopts.order_constit, snr)
-- 
2.43.0


From d90c4ccb77ec4de729eb8e3050b3a86bb2d1cdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 24/36] fix: day numbers without an epoch

The documented default epoch is 'python', but day numbers given without an
epoch were taken for milliseconds since 1970.
---
 utide/_time_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index f215176..f584535 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -71,6 +71,9 @@ def _normalize_time(t, epoch=None):
     t = np.asanyarray(t)
 
     if epoch is None:
+        if t.dtype.kind in "if":
+            # day numbers, with the default epoch, 'python'
+            return t
         # default datetime, datetime64, or datetime array
         return _python_gregorian_datenum(t)
 
-- 
2.43.0


From 15384c6c8b5bfa76f49c195948e5a2fe1720cdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 25/36] fix: order_constit lists that leave out or repeat
 constituents

The solution lost or repeated rows, and no longer matched its own counts,
percent energies and trend. Raise ValueError instead.
---
 utide/_solve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 0a4be2a..53e304b 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -465,6 +465,10 @@ def _reorder(coef, opt):
     else:
         namelist = list(coef["name"])
         ilist = [namelist.index(name) for name in opt["ordercnstit"]]
+        if sorted(ilist) != list(range(len(namelist))):
+            raise ValueError(
+                "order_constit must name each constituent of the solution once",
+            )
         ind = np.array(ilist, dtype=int)
 
     arrays = "name PE SNR A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci"
-- 
2.43.0


From 7801e1f666f5c3981346de30544b458e7135af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 26/36] fix: inference of a constituent twice, or from itself

The solution held such a constituent twice, and the tide predicted from it
included it twice. Raise ValueError instead.
---
 utide/_solve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utide/_solve.py b/utide/_solve.py
index 53e304b..5e2ddae 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -105,6 +105,12 @@ def validate_infer(infer, is_2D):
     nI = len(infer.inferred_names)
     if len(infer.reference_names) != nI:
         raise ValueError("inferred_names must be same" "  length as reference_names")
+    if len(set(infer.inferred_names) | set(infer.reference_names)) != nI + len(
+        set(infer.reference_names),
+    ):
+        raise ValueError(
+            "inferred_names must not repeat a name or include reference names",
+        )
     nratios = 2 * nI if is_2D else nI
     if len(infer.amp_ratios) != nratios or len(infer.phase_offsets) != nratios:
         raise ValueError(f"ratios and offsets need to have length {nratios:d}")
-- 
2.43.0


From a23193ce37cb0513a3e21371f4e29b119167e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 27/36] fix: constituents listed repeatedly

The model matrix was singular: solve raised an error, or without limits
shared the amplitude between the repeated entries.
---
 utide/constituent_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utide/constituent_selection.py b/utide/constituent_selection.py
index 7811201..dbcce0c 100644
--- a/utide/constituent_selection.py
+++ b/utide/constituent_selection.py
@@ -45,7 +45,8 @@ def ut_cnstitsel(tref, minres, incnstit, infer):
     if isinstance(incnstit, str) and incnstit == "auto":
         cnstit.NR.lind = np.where(const.df >= minres)[0]
     else:
-        cnstit.NR.lind = [constit_index_dict[n] for n in incnstit]
+        # Each constituent once, even if it is listed repeatedly.
+        cnstit.NR.lind = [constit_index_dict[n] for n in dict.fromkeys(incnstit)]
 
     # Remove from NR any R and I constituents.
     if infer is not None:
-- 
2.43.0


From bb59b8e5193dbe7f767e52ec7c15185dfb02b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 28/36] fix: constit given to reconstruct as a pandas Series

The names were looked for in the index of the Series, and not found.
---
 utide/_reconstruct.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/_reconstruct.py b/utide/_reconstruct.py
index 67974c5..088f888 100644
--- a/utide/_reconstruct.py
+++ b/utide/_reconstruct.py
@@ -95,6 +95,8 @@ def _reconstruct(t, goodmask, coef, verbose, constit, min_SNR, min_PE):
 
     # Determine constituents to include.
     if constit is not None:
+        if not isinstance(constit, str):
+            constit = list(constit)  # The values, also of a pandas Series.
         ind = [i for i, c in enumerate(coef["name"]) if c in constit]
     elif (min_SNR == 0 and min_PE == 0) or coef["aux"]["opt"]["nodiagn"]:
         ind = slice(None)
-- 
2.43.0


From 7d710554ec9082a0c347f18ae2b270a11f3e828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 29/36] fix: day numbers of an unsigned integer type

They were taken as milliseconds since 1970, or refused when an epoch was given.
---
 utide/_time_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utide/_time_conversion.py b/utide/_time_conversion.py
index f584535..add86a4 100644
--- a/utide/_time_conversion.py
+++ b/utide/_time_conversion.py
@@ -71,13 +71,13 @@ def _normalize_time(t, epoch=None):
     t = np.asanyarray(t)
 
     if epoch is None:
-        if t.dtype.kind in "if":
+        if t.dtype.kind in "iuf":
             # day numbers, with the default epoch, 'python'
             return t
         # default datetime, datetime64, or datetime array
         return _python_gregorian_datenum(t)
 
-    if t.dtype.kind in ("if"):
+    if t.dtype.kind in "iuf":
         if epoch == "python":
             return t
         elif epoch == "matlab":
-- 
2.43.0


From 69f435c4a2294e48af67bed13b8a0d668a5d7f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 30/36] fix: missing t_mpl of a Bunch is an AttributeError

hasattr(b, 't_mpl') and getattr(b, 't_mpl', default) raised KeyError.
---
 utide/utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utide/utilities.py b/utide/utilities.py
index 342df93..2832c09 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -169,6 +169,8 @@ class Bunch(dict):
 
     @property
     def t_mpl(self):
+        if "t_mpl" not in self:
+            raise AttributeError("'Bunch' object has no attribute 't_mpl'")
         warnings.warn(
             "t_mpl is being depreciated. Please directly input a time array and use variable t_in for plots.",
             category=FutureWarning,
-- 
2.43.0


From 53e06d98703726816cd97d8ed2471666d4da644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 31/36] fix: showmatbunch of an empty Bunch

---
 utide/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 2832c09..bb938d6 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -274,7 +274,7 @@ def showmatbunch(b):
         b = loadbunch(b)
     elist = _showmatbunch(b)
     names = [n for n, v in elist]
-    namelen = min(40, max(len(n) for n in names))
+    namelen = min(40, max((len(n) for n in names), default=0))
     str_fmt = "{0!s:<{namelen}} : {1!s}\n"
     strlist = [str_fmt.format(n[1:], v, namelen=namelen) for (n, v) in elist]
     return "".join(strlist)
-- 
2.43.0


From 55bf9ceed5a2fe272e741fbe5ffcfac7efbce83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 32/36] fix: convert_unicode_arrays makes a str of a single
 string, and strips nested ones

as its docstring says.
---
 utide/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index bb938d6..16625d9 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -318,11 +318,13 @@ def convert_unicode_arrays(b):
                         and x.dtype.kind == "U"
                         and x.size == 1
                     ):
-                        newval[k] = x.item()
+                        newval[k] = x.item().rstrip()
                     else:
                         newval[k] = x
             elif val.dtype.kind == "U" and val.ndim == 1:
                 newval = np.array([s.rstrip() for s in val], dtype=object)
+                if newval.size == 1:
+                    newval = newval.item()
             else:
                 newval = val
         elif isinstance(val, dict):
-- 
2.43.0


From e22821a6daba91bd0ba582ac823c1c854f398021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:05 +0000
Subject: [PATCH 33/36] fix: options of a solution are not the module's
 defaults

Modifying coef.aux.opt.newopts.robust_kw changed later calls of solve.
---
 utide/_solve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utide/_solve.py b/utide/_solve.py
index 5e2ddae..6584357 100644
--- a/utide/_solve.py
+++ b/utide/_solve.py
@@ -2,6 +2,8 @@
 Central module for calculating the tidal amplitudes, phases, etc.
 """
 
+import copy
+
 import numpy as np
 
 from ._time_conversion import _normalize_time
@@ -32,7 +34,7 @@ default_opts = {
 
 
 def _process_opts(opts, is_2D):
-    newopts = Bunch(default_opts)
+    newopts = Bunch(copy.deepcopy(default_opts))
     newopts.update_values(strict=True, **opts)
     # TODO: add more validations.
     for name, choices in (
-- 
2.43.0


From 6ec08d84ecf0a8ead2bdcdeada7b0d1c2e41751e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:56 +0000
Subject: [PATCH 34/36] fix: Bunch.from_pyfile indented the lines of multi-line
 strings

The code was made a function body by indenting its text, the inside of
strings included. Put the parsed statements into the function instead.
---
 utide/utilities.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/utide/utilities.py b/utide/utilities.py
index 16625d9..0a291c0 100644
--- a/utide/utilities.py
+++ b/utide/utilities.py
@@ -1,3 +1,4 @@
+import ast
 import warnings
 
 import numpy as np
@@ -107,21 +108,16 @@ class Bunch(dict):
         # Python 3 the scoping for list comprehensions would
         # lead to a NameError.  Wrapping the code in a function
         # fixes this.
+        # The code is put in as parsed: indenting its text would also
+        # indent the lines of multi-line strings.
         d = {}
-        lines = ["def _temp_func():\n"]
         with open(filename) as f:
-            lines.extend(["    " + line for line in f])
-        lines.extend(
-            [
-                "\n    return(locals())\n",
-                "_temp_out = _temp_func()\n",
-                "del(_temp_func)\n",
-            ],
-        )
-        codetext = "".join(lines)
-        code = compile(codetext, filename, "exec")
+            tree = ast.parse(f.read(), filename)
+        func = ast.parse("def _temp_func():\n    return locals()\n", filename)
+        func.body[0].body[:0] = tree.body
+        code = compile(func, filename, "exec")
         exec(code, globals(), d)
-        self.update(d["_temp_out"])
+        self.update(d["_temp_func"]())
         return self
 
     def update_values(self, *args, **kw):
-- 
2.43.0


From 478dd0c03fd524f293d7a988570341a2e00d5653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:36 +0000
Subject: [PATCH 35/36] fix: limits across a current along one axis were
 sometimes zero

ut_linci took a vector solution for a scalar one when the imaginary part
of its cosine coefficient happened to be exactly zero. What matters is
the type, as in the Matlab version.
---
 utide/confidence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utide/confidence.py b/utide/confidence.py
index 6f869a9..0cc946e 100644
--- a/utide/confidence.py
+++ b/utide/confidence.py
@@ -509,7 +509,7 @@ def ut_linci(X, Y, sigX, sigY):
     )
 
     # if ~isreal(X)
-    if not np.isreal(X):
+    if np.iscomplexobj(X):
         # Minor axis.
         dXu2 = (0.25 * (ex - fx)) ** 2
         dYu2 = (0.25 * (gx - hx)) ** 2
-- 
2.43.0


From 73fa9b245df6d23fa43d300af533a43fd2abdb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:24 +0000
Subject: [PATCH 36/36] fix: robustfit took a fit of fewer samples than
 parameters for a solution

When a cut-off weight function leaves fewer samples than parameters,
rounding may keep the rank from showing it; the iteration then went on
from an arbitrary solution. Count the samples as well.
---
 utide/robustfit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utide/robustfit.py b/utide/robustfit.py
index 11247c4..6e159ec 100644
--- a/utide/robustfit.py
+++ b/utide/robustfit.py
@@ -213,8 +213,9 @@ def robustfit(
         wX = w[:, np.newaxis] * X
         wy = w * y
         b, rsumsq, rank, sing = np.linalg.lstsq(wX, wy, rcond)
-        if rank < p and oldlstsq is not None:
-            # Too few samples have kept any weight.
+        if oldlstsq is not None and (rank < p or np.count_nonzero(w) < p):
+            # Too few samples have kept any weight.  (The rank alone does not
+            # always tell, because of rounding.)
             b, rsumsq, rank, sing = oldlstsq
             w = oldw
             iterations = i
-- 
2.43.0

