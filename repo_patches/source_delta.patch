From 27fd7b3a40773f651c75c14dc6ef4559beb6651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 01/75] fix: ofamp returns the no-pulse answer when the window
 allows no time bins

---
 qetpy/core/_fitting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..6709059 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1134,9 +1134,15 @@ def ofamp(signal, template, inputpsd, fs, withdelay=True, coupling='AC',
             chi, nconstrain=nconstrain, lgcoutsidewindow=lgcoutsidewindow,
         )
 
-        amp = np.diag(amps[:, bestind])
-        chi2 = np.diag(chi[:, bestind])
-        t0 = (bestind - nbins//2) / fs
+        if np.any(np.isnan(bestind)):
+            # no allowed time bins, so return the no pulse values
+            amp = np.zeros(len(chi0))
+            chi2 = chi0
+            t0 = np.zeros(len(chi0))
+        else:
+            amp = np.diag(amps[:, bestind])
+            chi2 = np.diag(chi[:, bestind])
+            t0 = (bestind - nbins//2) / fs
 
     else:
         # compute OF amplitude no delay
-- 
2.43.0


From a904670c40cc6ee84a0a8d7d265c799bfd73f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:05 +0000
Subject: [PATCH 02/75] fix: interpolated time of best fit at the last bin of
 the trace raised IndexError

---
 qetpy/core/_fitting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 6709059..4640114 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -294,8 +294,11 @@ class OptimumFilter(object):
 
         sf = 1 / (2 * delta**2)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        # time shifts are circular, so the bins at the ends are neighbors
+        nextind = (bestind + 1) % len(vals)
+
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From 3ac46f5559fcc601bf634c27fa7382259e3fc283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:20 +0000
Subject: [PATCH 03/75] fix: do not extrapolate the interpolated time of best
 fit outside of the allowed window

---
 qetpy/core/_fitting.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4640114..855ce6e 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -315,6 +315,17 @@ class OptimumFilter(object):
 
         """
     
+        # if the chi^2 is not at a local minimum (e.g. best fit is at the
+        # edge of a constrained window), then the extremum of the parabola
+        # is an extrapolation outside of the allowed bins
+        nextval = chi2[(bestind + 1) % len(chi2)]
+        prevval = chi2[bestind - 1]
+        if not (
+            chi2[bestind] <= min(nextval, prevval)
+            and chi2[bestind] < max(nextval, prevval)
+        ):
+            return amps[bestind], 0.0, chi2[bestind]
+
         t_interp, chi2_interp = OptimumFilter._interpolate_parabola(
             chi2, bestind, delta,
         )
-- 
2.43.0


From 7e287107b77894ac7b17a4627c40dc7c06426532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 04/75] fix: pileup chi2 used the filtered signal at a
 truncated bin instead of at t1

---
 qetpy/core/_fitting.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 855ce6e..9ccd568 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -701,16 +701,18 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # value of the filtered signal at t1, which might not be on a bin
+        signalfilt_t1 = np.real(
+            np.sum(
+                self.signalfilt * np.exp(2.0j * np.pi * self.freqs * t1)
+            )
+        ) * self.df
 
         # do a1 part of chi2
         chit = (
             a1**2 * self.norm
         ) - (
-            2 * a1 * self.signalfilt_td[t1ind] * self.norm
+            2 * a1 * signalfilt_t1 * self.norm
         )
 
         # do a1, a2 combined part of chi2
@@ -1314,14 +1316,14 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # value of the filtered signal at t1, which might not be on a bin
+    signalfilt_t1 = np.real(
+        np.sum(signalfilt * np.exp(1.0j * omega * t1))
+    ) * df
 
     # last part of chi2
     chil = (
-        2 * a1 * signalfilt_td[t1ind] * norm
+        2 * a1 * signalfilt_t1 * norm
     ) + (
         2 * a2s * signalfilt_td * norm
     )
-- 
2.43.0


From a22cc1c324766ace126f364ec485550c3052300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 05/75] fix: coincident-pulse amplitudes of the stationary
 pileup fits were divided by the norm once too often

---
 qetpy/core/_fitting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 9ccd568..dfd2bf4 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -842,9 +842,9 @@ class OptimumFilter(object):
             )
         ) / denom[1:]
 
-        # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        # calculate the zero delay bins to avoid divide by zero
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1446,9 +1446,9 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
         signalfilt_td[1:] * norm - signalfilt_td[0] * templatefilt_td[1:]
     ) / denom[1:]
 
-    # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    # calculate the zero delay bins to avoid divide by zero
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 5beae1185ad115a678863fc1f6432f346789a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 06/75] fix: pileup fits raised IndexError when no time bin is
 allowed for the second pulse

---
 qetpy/core/_fitting.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index dfd2bf4..9ab8723 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -878,10 +878,17 @@ class OptimumFilter(object):
         )
 
         # get best fit values
-        a1 = a1s[bestind]
-        a2 = a2s[bestind]
-        chi2 = chi[bestind]
-        t2 = self.times[bestind]
+        if np.isnan(bestind):
+            # no allowed time bins, so there is only the first pulse
+            a1 = self.signalfilt_td[0]
+            a2 = 0.0
+            chi2 = self.chi0 - a1**2 * self.norm
+            t2 = 0.0
+        else:
+            a1 = a1s[bestind]
+            a2 = a2s[bestind]
+            chi2 = chi[bestind]
+            t2 = self.times[bestind]
 
         return a1, a2, t2, chi2
 
@@ -1340,9 +1347,15 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     )
 
     # get best fit values
-    a2 = a2s[bestind]
-    chi2 = chi[bestind]
-    t2 = times[bestind]
+    if np.isnan(bestind):
+        # no allowed time bins, so there is only the first pulse
+        a2 = 0.0
+        chi2 = chi0 + a1**2 * norm - 2 * a1 * signalfilt_t1 * norm
+        t2 = 0.0
+    else:
+        a2 = a2s[bestind]
+        chi2 = chi[bestind]
+        t2 = times[bestind]
 
     return a1, t1, a2, t2, chi2
 
@@ -1472,10 +1485,17 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     )
 
     # get best fit values
-    a1 = a1s[bestind]
-    a2 = a2s[bestind]
-    chi2 = chi[bestind]
-    t2 = times[bestind]
+    if np.isnan(bestind):
+        # no allowed time bins, so there is only the first pulse
+        a1 = signalfilt_td[0] / norm
+        a2 = 0.0
+        chi2 = chi0 - a1**2 * norm
+        t2 = 0.0
+    else:
+        a1 = a1s[bestind]
+        a2 = a2s[bestind]
+        chi2 = chi[bestind]
+        t2 = times[bestind]
 
     return a1, a2, t2, chi2
 
-- 
2.43.0


From da7dfc91ad80f1d13bd0ede4228fced237efd204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 07/75] fix: time-domain pulse models started one bin early
 when t0*fs was not exactly representable

---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 9ab8723..f02b47a 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1816,7 +1816,7 @@ class OFnonlin(object):
         ) - (
             (A + B + C) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
     def threepole(self, A, B, tau_r, tau_f1, tau_f2, t0):
         """
@@ -1915,7 +1915,7 @@ class OFnonlin(object):
         ) - (
             (A + B) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
 
     def twopole(self, A, tau_r, tau_f, t0):
@@ -2024,7 +2024,7 @@ class OFnonlin(object):
                 A * (np.exp(-self.time / tau_r))
             )
 
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(round(t0 * self.fs)))
 
 
     def onepole(self, A, tau_f, t0):
-- 
2.43.0


From 0cbca2486a8088b2dbd2da39e1e581504bc6a853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 08/75] fix: two-pole spectrum was inverted with respect to the
 time-domain pulse if the rise is slower than the fall

---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index f02b47a..3d58850 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1957,8 +1957,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From 9d2929538e680ceb9120a3d8afc0d01adb5255a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 09/75] fix: use a step relative to each parameter for the
 Jacobian of the muon tail fit

---
 qetpy/core/_fitting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 3d58850..1a3d0be 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2586,6 +2586,7 @@ class MuonTailFit(object):
             bounds=bounds,
             x_scale=np.abs(p0),
             jac='3-point',
+            diff_step=np.finfo(float).eps**(1 / 3),
             loss='linear',
             xtol=2.3e-16,
             ftol=2.3e-16,
-- 
2.43.0


From d90bb7ff99c556814d53a6c29339a3edc2e9ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 10/75] fix: covariance of the nonlinear pulse fits was
 inaccurate for badly scaled parameters

---
 qetpy/core/_fitting.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 1a3d0be..7218953 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2399,8 +2399,23 @@ class OFnonlin(object):
                 )
             )
 
-        jac = result['jac']
+        # the Jacobian at the fit values, with a step relative to each parameter
+        # (the default step is not small as compared to times in seconds)
+        jacobian = least_squares(
+            self.residuals,
+            x0=variables,
+            jac='3-point',
+            diff_step=np.finfo(float).eps**(1 / 3),
+            max_nfev=1,
+        )
+        # the units of the parameters can differ by many orders of magnitude,
+        # so scale them out when inverting to get the covariance
+        jac = jacobian['jac']
+        scale = np.linalg.norm(jac, axis=0)
+        scale[scale==0] = 1
+        jac = jac / scale
         cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
+        cov /= np.outer(scale, scale)
         errors = np.sqrt(cov.diagonal())
 
         if lgcplot:
@@ -2594,8 +2609,14 @@ class MuonTailFit(object):
         variables = result['x']
         chi2 = self.calcchi2(self.muontailfcn(*variables))
 
+        # the units of the parameters can differ by many orders of magnitude,
+        # so scale them out when inverting to get the covariance
         jac = result['jac']
+        scale = np.linalg.norm(jac, axis=0)
+        scale[scale==0] = 1
+        jac = jac / scale
         cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
+        cov /= np.outer(scale, scale)
         errors = np.sqrt(cov.diagonal())
 
         if lgcfullrtn:
-- 
2.43.0


From 8b740cec1133c87565d1f70976696248b83ce89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 11/75] fix: muon tail fit raised ValueError when the 1/e
 sample is the first one

---
 qetpy/core/_fitting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 7218953..7edc324 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2588,7 +2588,10 @@ class MuonTailFit(object):
         self.error = np.sqrt(self.psd / errscale)
 
         ampguess = np.max(signal) - np.min(signal)
-        tauguess = np.argmin(np.abs(signal - ampguess / np.e)) / self.fs
+        # at least one bin, such that the bounds are never empty
+        tauguess = max(
+            np.argmin(np.abs(signal - ampguess / np.e)), 1,
+        ) / self.fs
 
         p0 = (ampguess, tauguess)
         boundslower = (0, 0)
-- 
2.43.0


From bb1d3da8f200d61427da6ef25beff385d5c828ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 12/75] fix: slope background template had one element too many
 for some trace lengths

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..0422d1e 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1192,7 +1192,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1290,7 +1290,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 2d77e920ef74452594391c48f6500bdbcc1d0e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 13/75] fix: of_nsmb_setup raised LinAlgError with a single
 background template

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 0422d1e..4a5954f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:,:,0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
-- 
2.43.0


From cd4ac9e34a34027ead0ac4fac505107c53fa68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 14/75] fix: polarity constrained nsmb fits raised IndexError
 if all amplitudes but one are forced to zero

---
 qetpy/core/_of_nsmb.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 4a5954f..21a9fc1 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.flatnonzero(bitmask)
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -472,7 +472,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     chi2BOnlyCon = np.real(np.sum(np.conj(residBOnlyfCon)/psddnu.T*residBOnlyfCon,0))
     chi2BOnlyCon_LF = np.real(np.sum(np.conj(residBOnlyfCon[0:lfindex])/psddnu.T[0:lfindex]*residBOnlyfCon[0:lfindex],0))
 
-    bminsqueezeNew = np.squeeze(bOnlyACon)
+    bminsqueezeNew = bOnlyACon[:,0]
         
     if lgcplot:
         lpFiltFreq = 30e3
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.flatnonzero(bitcombfit_it1)
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.flatnonzero(bitcombfit_it2)
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.flatnonzero(bitcombfit_it3)
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -1152,9 +1152,9 @@ def _index_disallowed(amp_array, con_array):
     
     """
 
-    negamp = np.squeeze(np.asarray(amp_array < 0,dtype=int))
-    posamp = np.squeeze(np.asarray(amp_array > 0,dtype=int))
-    zeroamp = np.squeeze(np.asarray(amp_array == 0,dtype=int))
+    negamp = np.ravel(np.asarray(amp_array < 0,dtype=int))
+    posamp = np.ravel(np.asarray(amp_array > 0,dtype=int))
+    zeroamp = np.ravel(np.asarray(amp_array == 0,dtype=int))
     # find the negative amps which are constrained to be positive
     negfit_poscon = negamp & (con_array == 1)
     # find the positive backgrounds which are constrained to be negative
-- 
2.43.0


From 331284026c9c181737d77d7e0a437959da16fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 15/75] fix: of_nsmb modified the search window of the caller

---
 qetpy/core/_of_nsmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 21a9fc1..c202341 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -567,7 +567,8 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     """
 
-    indwindow = indwindow_nsmb[0]
+    # copy, since it is modified below
+    indwindow = np.array(indwindow_nsmb[0])
 
     # === Input Dimensions ===
     pulset = np.expand_dims(pulset,1)
-- 
2.43.0


From c50d428dc3ed312c793bb9eac589fd606cc22457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 16/75] fix: polarity constrained nsmb fits could return
 amplitudes of the disallowed polarity

---
 qetpy/core/_of_nsmb.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c202341..0d6134f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -447,20 +447,26 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     # bitcomb_fitbackground is an array that has 1 in indices for the
     # background templates that will not be forced to zero
     bitcombfitBackground = 1 - bitcomb_forcezero
+    lgcrefit = True
 
-    numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
+    # repeat until no amplitude is in a disallowed region, since the
+    # refit can move other amplitudes there
+    while lgcrefit:
 
-    tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
+        indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
 
-    B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
-    iB_Mask = np.linalg.pinv(B_Mask)
+        B_Mask = B[np.ix_(indexBitMaskBackground, indexBitMaskBackground)]
+        iB_Mask = np.linalg.pinv(B_Mask)
 
-    # background only fit with only the masked backgrounds active    
-    bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
+        # background only fit with only the masked backgrounds active
+        bOnlyAConMask = iB_Mask@backgroundsum[np.ix_(indexBitMaskBackground)]
 
-    bOnlyACon = np.zeros((nsb-ns,1))
-    bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
+        bOnlyACon = np.zeros((nsb-ns,1))
+        bOnlyACon[np.ix_(indexBitMaskBackground)] = bOnlyAConMask
+
+        bitcomb_allowed = 1 - _index_disallowed(bOnlyACon, bkgpolarityconstraint)
+        lgcrefit = not np.array_equal(bitcomb_allowed, bitcombfitBackground)
+        bitcombfitBackground = bitcomb_allowed
 
     # calc chi2 of constrained background only fit
     bestFitBOnlyCon = btemplate@bOnlyACon
@@ -927,13 +933,13 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
 
         ######
         # check if any amplitudes are in disallowed region
-        # set to zero if so
+        # set to zero if so, and repeat until there are none,
+        # since the refit can move other amplitudes there
         ######
 
-        bitcomb_forcezero = _index_disallowed(a_tsetnew[:,ii], sbpolcon)
-        bitcombfit_it3 = 1 - bitcomb_forcezero
-        
-        if (np.array_equal(bitcombfit_it2, bitcombfit_it3)==False):
+        bitcombfit_it3 = 1 - _index_disallowed(a_tsetnew[:,ii], sbpolcon)
+
+        while not np.array_equal(bitcombfit, bitcombfit_it3):
 
             bitcombfit = bitcombfit_it3
 
@@ -950,6 +956,8 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             # reset the a_tsetnew vector
             a_tsetnew[:,ii]=np.squeeze(a_tsetnewonet)
 
+            bitcombfit_it3 = 1 - _index_disallowed(a_tsetnew[:,ii], sbpolcon)
+
         #save the bitcombfit array
         bitcombfitVec[:,ii]= bitcombfit
             
-- 
2.43.0


From 1d525d34833ab7a8a7f51fba33688a8c17e7bb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 17/75] fix: nsmb interpolation failed for a best fit at the
 first or last bin, and extrapolated away from local minima

---
 qetpy/core/_of_nsmb.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 0d6134f..fe8a142 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1119,10 +1119,28 @@ def _interpchi2(indmin, chi2, amp, time):
 
     """
 
-    t_to_interp = time[int(indmin-1):int(indmin+2)]
-        
-    chi2_interp = chi2[int(indmin-1):int(indmin+2)]
-    amin_s_interp = amp[int(indmin-1):int(indmin+2)]
+    indmin = int(np.squeeze(indmin))
+    nt = len(chi2)
+
+    # the delay is circular, so the neighbors of the first and last bins
+    # are at the other end of the arrays
+    ind_to_interp = np.arange(indmin-1, indmin+2)
+    chi2_interp = np.take(chi2, ind_to_interp, mode='wrap')
+    amin_s_interp = np.take(amp, ind_to_interp, mode='wrap')
+
+    # times of the neighbors, extrapolated beyond the ends
+    t_to_interp = np.interp(ind_to_interp, np.arange(nt), time)
+    if indmin == 0:
+        t_to_interp[0] = 2*time[0] - time[1]
+    if indmin == nt-1:
+        t_to_interp[2] = 2*time[-1] - time[-2]
+
+    # only interpolate at a local minimum (the best bin in a search window
+    # does not need to be one)
+    if not (chi2_interp[1] <= chi2_interp[0]
+            and chi2_interp[1] <= chi2_interp[2]
+            and chi2_interp[0] + chi2_interp[2] > 2*chi2_interp[1]):
+        return time[indmin], chi2[indmin], amp[indmin]
 
     z_interp = np.polyfit(t_to_interp, chi2_interp,2)
     f_interp = np.poly1d(z_interp)
-- 
2.43.0


From 733d2a93af0c3f44565d55b1723e392035283322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 18/75] fix: of_nsmb_con raised IndexError for an additional
 search window with a single bin

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index fe8a142..fe90db8 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1004,7 +1004,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     
 
     for iwin in range(ncwindow):
-        indwindow = np.squeeze(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
+        indwindow = np.ravel(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
         chi2min_cwindow[iwin] = np.amin(chi2newroll[indwindow])
         ind_tdel_smNew = np.argmin(chi2newroll[indwindow])
         ind_tdel_New=indwindow[ind_tdel_smNew]
-- 
2.43.0


From e09d1fd4b137ba19e4cbd4b412e8c9ec41878cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 19/75] fix: IV.rfit_err was the fit resistance instead of its
 error

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..ed3a0dc 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -297,7 +297,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 1f83188d30622dad21184c906476fa0fe76e0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 20/75] fix: IV with a 3-dimensional load resistance failed, as
 it was never stored

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index ed3a0dc..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 7acdac84a251f129f27acfb25308040dd21a2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 21/75] fix: IBIS without superconducting fit failed for a
 scalar rp_guess with 1-d or 2-d data, and for a 3-d rp_guess

---
 qetpy/core/_ibis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..fdcde00 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones((ntemps, nch, niters))*rp_guess
+            self.rp_err_guess = np.ones((ntemps, nch, niters))*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
-- 
2.43.0


From 31f95ba0b5594158df24a9baa20c1c2999165731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 22/75] fix: IBIS.analyze failed for float current offsets

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index fdcde00..8877850 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -607,13 +607,13 @@ class IBIS(object):
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = np.broadcast_to(yoff, self.dites.shape)
+            ioff_err = np.broadcast_to(yoff_err, self.dites.shape)
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = np.broadcast_to(xoff, self.dites.shape)
+            ibias_off_err = np.broadcast_to(xoff_err, self.dites.shape)
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From b926776e89ead363ff0cad13a8df27e97a8af954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 23/75] fix: error of the current offset in IBIS missed a
 factor in the derivative

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 8877850..c13f827 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -579,7 +579,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 8e8d81581ccf021d647e0628ed5ff9edf5da88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 24/75] fix: errors of the fitted resistances in IBIS used the
 variance of the slope as its standard deviation

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index c13f827..1de27c0 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 8ca8abd5dd0847563e1e092fbe659591ca60995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 25/75] fix: IBIS without superconducting fit propagated errors
 of a line that was not fitted to the offsets

---
 qetpy/core/_ibis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 1de27c0..d3c0d5f 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -531,9 +531,11 @@ class IBIS(object):
             rp_err = self.rp_err_guess
             int_point_y = int_n
             int_point_x = np.zeros_like(int_n)
+            # the normal line is assumed to have no bias offset
+            ioff_err = int_n_err
 
         # error prop for x_int
-        for t in range(ntemps):
+        for t in range(ntemps if self.fitsc else 0):
             for ch in range(nch):
                 jac_int = np.zeros((4, 4))
                 cov_int = np.zeros((4, 4))
@@ -563,7 +565,7 @@ class IBIS(object):
                 ibias_off_err[t,ch] = np.sqrt(np.sum(covout))
 
         # error prop for y_int
-        for t in range(ntemps):
+        for t in range(ntemps if self.fitsc else 0):
             for ch in range(nch):
                 jac_int = np.zeros((4, 4))
                 cov_int = np.zeros((4, 4))
-- 
2.43.0


From 9141e0e7d4fa50116d5ce2f46698c5ce4185c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:37 +0000
Subject: [PATCH 26/75] fix: covariances of the straight line fits of IV and
 IBIS were inaccurate or NaN for data in Amps and Volts

---
 qetpy/core/_ibis.py | 27 +++++++++++++++++++++++++++
 qetpy/core/_iv.py   | 28 ++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index d3c0d5f..a822ebc 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -283,6 +283,31 @@ class IBIS(object):
         linfunc = m*x + b
         return linfunc
 
+    @staticmethod
+    def _fitfunc_jac(x, b, m):
+        """
+        Jacobian of `_fitfunc` with respect to b and m. A numerical
+        Jacobian is not accurate enough for data in units of Amps, for
+        which the covariance of the fit would be meaningless.
+
+        Parameters
+        ----------
+        x : array_like
+            x-values of the data.
+        b : float
+            y-intercept of line.
+        m : float
+            slope of line.
+
+        Returns
+        -------
+        jac : ndarray
+            The Jacobian, of shape (len(x), 2).
+
+        """
+
+        return np.column_stack((np.ones(len(x)), x))
+
     @staticmethod
     def _rtes(ibias, ibias_off, rsh, dites, ioff, rp):
         """
@@ -463,6 +488,7 @@ class IBIS(object):
                     self.dites[t, ch, self.normalinds],
                     sigma=self.dites_err[t, ch, self.normalinds],
                     absolute_sigma=True,
+                    jac=IBIS._fitfunc_jac,
                 )
 
                 slope_n[t, ch] = x[1]
@@ -492,6 +518,7 @@ class IBIS(object):
                             self.dites[t, ch, self.scinds],
                             sigma=self.dites_err[t, ch, self.scinds],
                             absolute_sigma=True,
+                            jac=IBIS._fitfunc_jac,
                         )
                     except ValueError:
                         raise ValueError(
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 392fbc8..27b9f95 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -35,6 +35,28 @@ def _fitfunc(x, b, m):
     linfunc = m*x + b
     return linfunc
 
+def _fitfunc_jac(x, b, m):
+    """
+    Jacobian of `_fitfunc` with respect to b and m. A numerical Jacobian is not accurate enough
+    for data in units of Volts and Amps, for which the covariance of the fit would be meaningless.
+    
+    Parameters
+    ----------
+    x : array_like
+        x-values of the data
+    b : float
+        y-intercept of line
+    m : float
+        slope of line
+    
+    Returns
+    -------
+    jac : ndarray
+        The Jacobian, of shape (len(x), 2)
+    """
+    
+    return np.column_stack((np.ones(len(x)), x))
+
 def _findnormalinds(vb, dites, dites_err, tol=10):
     """
     Function to determine the indices of the normal data in an IV curve
@@ -63,7 +85,8 @@ def _findnormalinds(vb, dites, dites_err, tol=10):
         end_ind+=1
         inds = range(0,end_ind)
         
-        x = curve_fit(_fitfunc, vb[inds], dites[inds], sigma=dites_err[inds], absolute_sigma=True)[0]
+        x = curve_fit(_fitfunc, vb[inds], dites[inds], sigma=dites_err[inds], absolute_sigma=True,
+                      jac=_fitfunc_jac)[0]
         red_chi2 = np.sum(((_fitfunc(vb[inds],*x)-dites[inds])/dites_err[inds])**2)/(end_ind-len(x))
         
         if red_chi2>tol:
@@ -267,7 +290,8 @@ class IV(object):
                     normalinds = self.normalinds
                     
                 x, xcov = curve_fit(_fitfunc, self.vb[t, ch, normalinds], self.dites[t, ch, normalinds],
-                                    sigma=self.dites_err[t, ch, normalinds], absolute_sigma=True)
+                                    sigma=self.dites_err[t, ch, normalinds], absolute_sigma=True,
+                                    jac=_fitfunc_jac)
 
                 jac = np.zeros((2,2))
                 jac[0,0] = 1
-- 
2.43.0


From c4f2573a06489424c888ef7bca221247663a3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 27/75] fix: shift truncated interpolated values of integer
 arrays

---
 qetpy/utils/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..b421090 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -61,8 +61,13 @@ def shift(arr, num, fill_value=0):
         else:
             result[:] = arr
     else:
+        # interpolated values are not whole numbers, also for integer arrays
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            np.asarray(arr, dtype=float),
+            num,
+            order=1,
+            mode='constant',
+            cval=fill_value,
         )
 
     return result
-- 
2.43.0


From 7e227e6c3c9b333c12d48f78cce74fb69031be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 28/75] fix: resample_factors gave a non-integer ratio for
 composite denominators

---
 qetpy/utils/_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index b421090..f4b6089 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -109,17 +109,20 @@ def resample_factors(fs, sgfreq):
 
     rfacs = factorrat(S(int(fs)) / int(sgfreq))
     numer = [key for key in rfacs if rfacs[key] > 0]
-    denom = [key for key in rfacs if rfacs[key] < 0]
+    denom = [key**(-rfacs[key]) for key in rfacs if rfacs[key] < 0]
 
     if len(denom)==0:
         return 1, 1
 
+    # `up` must be a multiple of the full denominator, not of just one
+    # of its prime factors
+    denom = np.multiply.reduce(denom)
     down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    up = round(down / denom) * denom
 
     # round up if `sgfreq` is prime (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = np.ceil(down / denom).astype(int) * denom
 
     return int(up), int(down)
 
-- 
2.43.0


From 9ced245cfa1e7fd205fab77e162e06807f75384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 29/75] fix: make_decreasing tossed out values equal to zero
 and failed if no value is below the first

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index f4b6089..62e7ff9 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -244,16 +244,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    # nothing to interpolate between if no value is below the first one
+    if np.sum(interp_inds)==1:
+        return np.full(len(y), y[0], dtype=float)
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0


From 3808d9ae91817ce9a32b31200e927e3488d5b5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 30/75] fix: calc_offset could drop a full period, or a sample
 of it, by rounding

---
 qetpy/utils/_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 62e7ff9..3c3a537 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -296,10 +296,9 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
-        n_periods = int(x.shape[-1] / period_bins)
-        x = x[..., :int(n_periods * period_bins)]
+        # avoid intermediate roundings, which could drop a full period
+        n_periods = int(x.shape[-1] * sgfreq / fs)
+        x = x[..., :int(n_periods * fs / sgfreq)]
 
     offset = np.mean(np.mean(x, axis=-1), axis=0)
     std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])
-- 
2.43.0


From aa2811049a91f1958a352fcb2bb84c7e8dd56384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 31/75] fix: slope subtracted the mean of x from y, which is
 inaccurate if x is far from zero

---
 qetpy/utils/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 3c3a537..fed95c6 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -330,8 +330,9 @@ def slope(x, y, removemeans=True):
     """
 
     x_mean = np.mean(x) if removemeans else 0
+    y_mean = np.mean(y) if removemeans else 0
 
-    return np.sum((x - x_mean) * (y - x_mean)) / np.sum((x - x_mean) ** 2)
+    return np.sum((x - x_mean) * (y - y_mean)) / np.sum((x - x_mean) ** 2)
 
 def fill_negatives(arr):
     """
-- 
2.43.0


From 49816f7d52129e921c12228a5b972758a3b3c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 32/75] fix: energy_absorbed with a post-pulse baseline failed
 for 3-dimensional traces

---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index fed95c6..bc45fd9 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -617,7 +617,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From ea963124d7bb469b23e83828b00b9c7af2b25f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 33/75] fix: align_traces ignored cut_off_freq and fs

---
 qetpy/utils/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index bc45fd9..ede43eb 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -432,7 +432,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
-- 
2.43.0


From 01e0b8b0b552cc9384ccca500889ec4d4dd16ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 34/75] fix: align_traces did not mask shifted-in bins of
 integer traces

---
 qetpy/utils/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index ede43eb..d1f53e1 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -443,7 +443,8 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
     orig = np.argmax(signal.fftconvolve(t1,t1[::-1],mode = 'full'))
 
     # initialize empty array to store the aligned traces
-    traces_aligned = np.zeros_like(traces)
+    # (always floats, as integers cannot be NaN)
+    traces_aligned = np.zeros(traces.shape)
     shifts = np.zeros(traces.shape[0])
 
     for ii in range(traces.shape[0]):
@@ -456,7 +457,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
         shifts[ii] = t2_shift
         if not lgcjustshifts:
             traces_aligned[ii] = ndimage.shift(
-                traces[ii], t2_shift, cval=np.nan,
+                traces[ii], t2_shift, output=float, cval=np.nan,
             )
 
     if lgcjustshifts:
-- 
2.43.0


From 6405465b70913bc74c15954fee8f7af7d3c5dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 35/75] fix: calc_psd folded over the wrong axis for
 3-dimensional traces

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..a617505 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -78,7 +78,7 @@ def calc_psd(x, fs=1.0, folded_over=True):
             
         # multiply the necessary frequencies by two (zeroth frequency should be the same, as
         # should the last frequency when x.shape[-1] is odd)
-        psd[1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
+        psd[..., 1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
         f = rfftfreq(x.shape[-1], d=1.0/fs)
     else:
         # if folded_over = False, we calculate the Fourier Transform for all frequencies
-- 
2.43.0


From cb9e55e9d4c15657ed72db21f8a55e44dacf4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 36/75] fix: gen_noise modified the PSD of the caller

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index a617505..10336f6 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.copy(psd) # leave the inputted psd as it is
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From cc65d4f84f491a8bc83453fc784f63264b815b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 37/75] fix: Noise.calculate_psd doubled the zero and Nyquist
 frequencies

---
 qetpy/core/_noise.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 10336f6..4b5715b 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -305,10 +305,15 @@ class Noise(object):
         real_psd_chan = np.real(fft)**2
         imag_psd_chan = np.imag(fft)**2
         # take the average of the psd's for each trace, normalize, and fold over the 
-        # negative frequencies since they are symmetric
-        psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
-        real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
-        imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+        # negative frequencies since they are symmetric (zero and, for an even number of bins, 
+        # the last frequency have no negative counterpart)
+        fold = np.full(lenpsd, 2.0)
+        fold[0] = 1.0
+        if traceshape[2] % 2 == 0:
+            fold[-1] = 1.0
+        psd = np.mean(psd_chan, axis = 0)*fold/(traceshape[2]*self.fs) 
+        real_psd = np.mean(real_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)
+        imag_psd = np.mean(imag_psd_chan, axis = 0)*fold/(traceshape[2]*self.fs)  
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From 4154807012e075bae78c3c8cfa7625c4cc996864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 38/75] fix: slopecut never rejected any trace

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..549e234 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueErrror("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From d71f5ec0f7721387d35111f77f39d4094dcb2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 39/75] fix: symmetrizedist did not flip the sign of mostly
 positive values

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 549e234..87f5a8d 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From 6298137bc60d81387063d55519f8ee33e7a13b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 40/75] fix: pileupcut with removemeans modified the traces of
 the caller

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87f5a8d..cf80ef2 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From f5ce8ef08f807bc2249f940290ae04198d217883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 41/75] fix: unknown outlier algorithms raised NameError
 instead of ValueError

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index cf80ef2..11baf6e 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.zeros(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 6b595f902511426149edca6eac20edbf7c90c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 42/75] fix: get_muon_cut raised NameError

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 11baf6e..87d1362 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From db7126df93a5360d0788f2787471fcac1c838946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 43/75] fix: fall times of the dIdV were inaccurate, or wrong
 for an oscillating response

---
 qetpy/core/didv/_base_didv.py | 40 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..ae183ec 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -898,38 +898,36 @@ class _BaseDIDV(object):
             # two pole fall times for didv is different than tau1, tau2
             A, B, tau1, tau2, dt = params
 
-            def twopoleequations(p):
-                taup,taum = p
-                eq1 = taup+taum - A/(A+B)*(tau1+tau2)
-                eq2 = taup*taum-A/(A+B)*tau1*tau2
-                return (eq1, eq2)
-
-            taup, taum = fsolve(twopoleequations ,(tau1, tau2))
-            falltimes = np.array([taup, taum])
+            # the fall times are the roots of the polynomial with these
+            # sum and product of the roots
+            falltimes = np.roots([
+                1,
+                -A/(A+B)*(tau1+tau2),
+                A/(A+B)*tau1*tau2,
+            ])
 
         elif len(params)==7:
             # three pole fall times for didv is different
             # than tau1, tau2, tau3
             A, B, C, tau1, tau2, tau3, dt = params
 
-            def threepoleequations(p):
-                taup, taum, taun = p
-                eq1 = taup+taum+taun-(
-                    A*tau1+A*(1.0-C)*tau2+(A+B)*tau3
-                )/(A*(1.0-C)+B)
-                eq2 = taup*taum+taup*taun+taum*taun - (
-                    tau1*tau2+tau1*tau3+tau2*tau3
-                )*A/(A*(1.0-C)+B)
-                eq3 = taup*taum*taun - tau1*tau2*tau3*A/(A*(1.0-C)+B)
-                return (eq1, eq2, eq3)
-
-            taup, taum, taun = fsolve(threepoleequations, (tau1, tau2, tau3))
-            falltimes = np.array([taup, taum, taun])
+            # the fall times are the roots of the polynomial with these
+            # elementary symmetric functions of the roots
+            falltimes = np.roots([
+                1,
+                -(A*tau1+A*(1.0-C)*tau2+(A+B)*tau3)/(A*(1.0-C)+B),
+                (tau1*tau2+tau1*tau3+tau2*tau3)*A/(A*(1.0-C)+B),
+                -tau1*tau2*tau3*A/(A*(1.0-C)+B),
+            ])
 
         else:
             print("Wrong number of input parameters, returning zero...")
             falltimes = np.zeros(1)
 
+        # the fall times of an oscillating response are complex
+        if np.all(np.abs(np.imag(falltimes)) <= 1e-6*np.abs(falltimes)):
+            falltimes = np.real(falltimes)
+
         # return fall times sorted from shortest to longest
         return np.sort(falltimes)
 
-- 
2.43.0


From 7743557595c34a48752630c5add2b9fe9c4cdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 44/75] fix: processing dIdV traces repeatedly added half a
 period to dt0 each time

---
 qetpy/core/didv/_base_didv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index ae183ec..11c0bc6 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -476,6 +476,11 @@ class _BaseDIDV(object):
         self._add180phase = add180phase
         self._dt0 = dt0
 
+        # add half a period of the square wave frequency to the
+        # initial offset if add180phase is True
+        if self._add180phase:
+            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+
         self._freq = None
         self._time = None
         self._ntraces = None
@@ -946,11 +951,6 @@ class _BaseDIDV(object):
         nbinsraw = len(self._rawtraces[0])
         bins = np.arange(0, nbinsraw)
 
-        # add half a period of the square wave frequency to the
-        # initial offset if add180phase is True
-        if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
-
         self._time = bins*dt - self._dt0
 
         # figure out how many didv periods are in the trace, including
-- 
2.43.0


From 57e4a9fead2564449eefc33267df1a90d0e37d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 45/75] fix: DIDVPriors with add180phase added the half period
 twice to the guess of the fit

---
 qetpy/core/didv/_didv_priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..3e2ef12 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
+            # `self._dt0` includes the half period of `add180phase`
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From 2d652961548e30236fcb6b52c857ab55f0f7b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:14 +0000
Subject: [PATCH 46/75] fix: rounding could drop the last full period of dIdV
 traces

---
 qetpy/core/didv/_base_didv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 11c0bc6..1f6c50b 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -955,8 +955,8 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        # (no intermediate roundings, which could drop a full period)
+        nperiods = np.floor(nbinsraw*self._sgfreq/self._fs)
 
         # find which indices to keep in order to have an
         # integer number of periods
-- 
2.43.0


From 4be52a200c58b7b1eedef8916ada99048f2ca7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 47/75] fix: dIdV processing failed if rounding gave flat parts
 of different lengths

---
 qetpy/core/didv/_base_didv.py | 3 ++-
 qetpy/core/didv/_didv.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 1f6c50b..e32360e 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -985,7 +985,8 @@ class _BaseDIDV(object):
                 (float(i) + 0.48) * period_unscaled
             ) + int(self._dt0 * self._fs)
             flatindstemp.append(range(flatindlow, flatindhigh))
-        flatinds = np.array(flatindstemp).flatten()
+        # (the number of points can differ between periods by rounding)
+        flatinds = np.concatenate([np.arange(0), *flatindstemp]).astype(int)
 
         self._flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e54e886..bce5fae 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -109,7 +109,8 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
             (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
         flatindstemp.append(range(flatindlow, flatindhigh))
-    flatinds = np.array(flatindstemp).flatten()
+    # (the number of points can differ between periods by rounding)
+    flatinds = np.concatenate([np.arange(0), *flatindstemp]).astype(int)
 
     didvobj._flatinds = flatinds[np.logical_and(
         flatinds > 0, flatinds < nbins,
-- 
2.43.0


From 663532dd881728f2ec91b88903c699946e39e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 48/75] fix: harmonics of the square wave were dropped if the
 times are far from zero

---
 qetpy/core/didv/_base_didv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index e32360e..9b7b6dc 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -587,7 +587,8 @@ class _BaseDIDV(object):
         tracelength = len(x)
 
         # get the frequencies for a DFT, based on the sample rate of the data
-        dx = x[1]-x[0]
+        # (the difference of two neighbours is inaccurate if x is far from zero)
+        dx = (x[-1]-x[0])/(len(x)-1)
         freq = fftfreq(len(x), d=dx)
 
         # didv of fit in frequency space
@@ -642,7 +643,8 @@ class _BaseDIDV(object):
 
         # get the frequencies for a DFT,
         # based on the sample rate of the data
-        dx = x[1]-x[0]
+        # (the difference of two neighbours is inaccurate if x is far from zero)
+        dx = (x[-1]-x[0])/(len(x)-1)
         freq = fftfreq(len(x), d=dx)
 
         # FFT of the trace
-- 
2.43.0


From a51a9c9e9a3fbdde6c299b63955e54ccacdb3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 49/75] fix: dIdV processing dropped traces that are exactly
 zero at a frequency without signal

---
 qetpy/core/didv/_base_didv.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 9b7b6dc..3868c0a 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -682,19 +682,16 @@ class _BaseDIDV(object):
         # calculating the residual when fitting)
         sf[tracelength//2] = 0.0j
 
+        # frequencies without signal (up to floating point error), whatever
+        # the trace is there
+        zeroinds = np.abs(sf) <= 1e-12 * np.max(np.abs(sf))
+
         # deconvolve the trace from the square wave to get the didv in
-        # frequency space
-        dvdi = (sf/st)
-
-        # set values that are within floating point error of zero to
-        # 1.0 + 1.0j (we will give these values virtually infinite error, so
-        # the value doesn't matter. Setting to 1.0+1.0j avoids divide by zero
-        # if we invert)
-        zeroinds = np.abs(dvdi) < 1e-16
-        dvdi[zeroinds] = (1.0+1.0j)
-
-        # convert to complex admittance
-        didv = 1.0/dvdi
+        # frequency space, with 1 / (1.0 + 1.0j) where there is no signal (we
+        # will give these values virtually infinite error, so the value
+        # doesn't matter)
+        didv = np.full(tracelength, 1.0/(1.0+1.0j))
+        didv[~zeroinds] = st[~zeroinds] / sf[~zeroinds]
 
         return freq, didv, zeroinds
 
-- 
2.43.0


From a81fc45adf55a9145184e111e9ab6bc7619b80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 50/75] fix: dIdV fits failed if the guess of the time offset
 is zero

---
 qetpy/core/didv/_didv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index bce5fae..55c674b 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -254,6 +254,10 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 (np.inf, np.inf, np.inf, np.inf, np.inf, np.inf, np.inf),
             )
 
+        # scale of the parameters, must not be zero (e.g. for dt)
+        x_scale = np.abs(p0)
+        x_scale[x_scale==0] = 1.0e-6
+
         def _residual(params):
             """
             Define a residual for the nonlinear least squares
@@ -302,7 +306,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # res2 assumes loop gain < 1, where B>0 and tauI>0
             res2 = least_squares(
@@ -312,7 +316,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # check which loop gain cases gave the better fit
             if (res1['cost'] < res2['cost']):
@@ -328,7 +332,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
         else:
             #assume loop gain > 1, where B<0 and tauI<0
@@ -339,7 +343,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
 
         popt = res['x']
-- 
2.43.0


From 20dac15b17057bc7b3a5d6877a9167c9c78d6660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 51/75] fix: DIDVPriors ignored priors with a variance far
 below the largest one

---
 qetpy/core/didv/_didv_priors.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 3e2ef12..dcd9e33 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -238,6 +238,23 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
         return popt, pcov, cost
 
 
+    @staticmethod
+    def _invertpriorscov(priorscov):
+        """
+        Hidden helper function for the (pseudo-)inverse of the
+        covariance matrix of the priors. The matrix is scaled to unit
+        variances, as the parameters (and thus their variances) differ
+        by many orders of magnitude.
+
+        """
+
+        scale = np.sqrt(np.diag(priorscov))
+        scale[scale==0] = 1
+        scale = np.outer(scale, scale)
+
+        return np.linalg.pinv(priorscov / scale) / scale
+
+
     def _guessparams(self, poles, fcutoff, priors):
         """
         Hidden method for using the non-priors fitting to guess the
@@ -361,7 +378,7 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._didvmean[fit_freqs] * self._rsh,
             poles,
             priors,
-            np.linalg.pinv(priorscov),
+            DIDVPriors._invertpriorscov(priorscov),
             p0=guess_new,
             yerr=self._didvstd[fit_freqs] * self._rsh,
         )
-- 
2.43.0


From d93429f6f18af571750954b2768d5b16ed8d569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 52/75] fix: covariance of the dIdV fits was inaccurate as
 finite-difference steps were not small

---
 qetpy/core/didv/_didv.py | 54 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 55c674b..ea049a0 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -297,11 +297,62 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             z1d[1:z1d.size:2] = diff.imag*weights.imag
             return z1d
 
+        def _jacobian(params):
+            """
+            The analytic Jacobian of the residual. Finite differences
+            with the default step are inaccurate, as the step is not
+            small compared to parameters in seconds.
+
+            """
+
+            s = 2.0j*np.pi*freq
+
+            if (poles==1):
+                A, tau2, dt = params
+                dvdi = DIDV._onepoleimpedance(freq, A, tau2)
+                derivs = [1.0+s*tau2, A*s]
+            elif(poles==2):
+                A, B, tau1, tau2, dt = params
+                dvdi = DIDV._twopoleimpedance(freq, A, B, tau1, tau2)
+                pole1 = 1.0+s*tau1
+                derivs = [1.0+s*tau2, 1.0/pole1, -B*s/pole1**2, A*s]
+            elif(poles==3):
+                A, B, C, tau1, tau2, tau3, dt = params
+                dvdi = DIDV._threepoleimpedance(
+                    freq, A, B, C, tau1, tau2, tau3,
+                )
+                pole3 = 1.0+s*tau3
+                pole1 = 1.0+s*tau1-C/pole3
+                derivs = [
+                    1.0+s*tau2,
+                    1.0/pole1,
+                    B/pole1**2/pole3,
+                    -B*s/pole1**2,
+                    A*s,
+                    -B*C*s/pole1**2/pole3**2,
+                ]
+
+            phase = np.exp(-s*dt)
+            derivs = [-phase/dvdi**2*deriv for deriv in derivs]
+            derivs.append(-s*phase/dvdi)
+
+            if (yerr is None):
+                weights = 1.0+1.0j
+            else:
+                weights = 1.0/yerr.real+1.0j/yerr.imag
+
+            jac = np.zeros((freq.size*2, len(derivs)))
+            for ii, deriv in enumerate(derivs):
+                jac[0::2, ii] = -deriv.real*weights.real
+                jac[1::2, ii] = -deriv.imag*weights.imag
+            return jac
+
         if isloopgainsub1 is None:
             # res1 assumes loop gain > 1, where B<0 and tauI<0
             res1 = least_squares(
                 _residual,
                 p0,
+                jac=_jacobian,
                 bounds=bounds1,
                 loss='linear',
                 max_nfev=1000,
@@ -312,6 +363,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res2 = least_squares(
                 _residual,
                 p02,
+                jac=_jacobian,
                 bounds=bounds2,
                 loss='linear',
                 max_nfev=1000,
@@ -328,6 +380,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res = least_squares(
                 _residual,
                 p02,
+                jac=_jacobian,
                 bounds=bounds2,
                 loss='linear',
                 max_nfev=1000,
@@ -339,6 +392,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             res = least_squares(
                 _residual,
                 p0,
+                jac=_jacobian,
                 bounds=bounds1,
                 loss='linear',
                 max_nfev=1000,
-- 
2.43.0


From 2ff2f0fb11c9a3997dde30046ed208d82523b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:33 +0000
Subject: [PATCH 53/75] fix: covariance of the dIdV fits with priors was far
 off for nearly degenerate parameters

---
 qetpy/core/didv/_didv_priors.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index dcd9e33..da909a3 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -232,9 +232,24 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
         m.migrad()
 
         popt = m.np_values()
-        pcov = m.np_covariance()
         cost = m.fval
 
+        # MIGRAD only estimates the covariance on the way to the minimum,
+        # which is far off for (nearly) degenerate parameters. Use the
+        # inverse of the linearized information, with a step that is small
+        # compared to each parameter
+        steps = np.maximum(1e-5 * np.abs(popt), 1e-13)
+        steps[-1] = 1e-5 / (2 * pi * np.max(np.abs(freq)))
+        jac = np.array([
+            (_residual(popt + step) - _residual(popt - step)) / (
+                2 * np.max(step)
+            ) for step in np.diag(steps)
+        ])
+        pcovinv = jac.dot(jac.T) + invpriorscov
+        scale = np.sqrt(np.diag(pcovinv))
+        scale = np.outer(scale, scale)
+        pcov = np.linalg.inv(pcovinv / scale) / scale
+
         return popt, pcov, cost
 
 
-- 
2.43.0


From 6afbbf6c00ed898e0dc8574fde4fe1edd95c947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 54/75] fix: dIdV fits failed if the data do not determine all
 of the parameters

---
 qetpy/core/didv/_didv.py        | 6 +++++-
 qetpy/core/didv/_didv_priors.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index ea049a0..0aefd39 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -411,7 +411,11 @@ class DIDV(_BaseDIDV, _PlotDIDV):
         # take matrix product of transpose of jac and jac, take the inverse
         # to get the analytic covariance matrix
         pcovinv = np.dot(res["jac"].transpose(), res["jac"])
-        pcov = np.linalg.inv(pcovinv)
+        try:
+            pcov = np.linalg.inv(pcovinv)
+        except np.linalg.LinAlgError:
+            # the data do not determine all of the parameters
+            pcov = np.full(pcovinv.shape, np.inf)
 
         return popt, pcov, cost
 
diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index da909a3..f0222fa 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -248,7 +248,11 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
         pcovinv = jac.dot(jac.T) + invpriorscov
         scale = np.sqrt(np.diag(pcovinv))
         scale = np.outer(scale, scale)
-        pcov = np.linalg.inv(pcovinv / scale) / scale
+        try:
+            pcov = np.linalg.inv(pcovinv / scale) / scale
+        except np.linalg.LinAlgError:
+            # the data do not determine all of the parameters
+            pcov = np.full(pcovinv.shape, np.inf)
 
         return popt, pcov, cost
 
-- 
2.43.0


From 1ab13ca489580f81b6a9769e7fdc3b9e3ae0cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 55/75] fix: dIdV fits stopped short of the optimum if the
 guess of the time offset is close to zero

---
 qetpy/core/didv/_didv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 0aefd39..c83c9e5 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -257,6 +257,8 @@ class DIDV(_BaseDIDV, _PlotDIDV):
         # scale of the parameters, must not be zero (e.g. for dt)
         x_scale = np.abs(p0)
         x_scale[x_scale==0] = 1.0e-6
+        # the guess of dt can be arbitrarily close to zero
+        x_scale[-1] = max(x_scale[-1], 1.0e-6)
 
         def _residual(params):
             """
-- 
2.43.0


From c92a1cd6d8d22c11836ec84e881a68ccb2fadffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 56/75] fix: loadfromdidv compared the noise type by identity,
 which fails for computed strings

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From ddc39b85395fb124ee966d963c1bbedb40d26ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 57/75] fix: loadfromdidv could not load the normal noise, even
 with rnormal specified

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From 096749e85e242fc436f0a708b1cd8117f9f7b122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 58/75] fix: energy_res_estimate was off by a factor of two, or
 nonsense for unordered frequencies, for two sided PSDs

---
 qetpy/sim/_sim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 78ff35a..afe738c 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -33,6 +33,13 @@ def energy_res_estimate(freqs, tau_collect, Sp, collection_eff):
 
     """
 
+    if np.any(freqs < 0):
+        # two sided PSD: fold to the one sided PSD, which contains the
+        # power of both signs of the frequency
+        inds = np.argsort(freqs)
+        freqs = freqs[inds]
+        Sp = 4*Sp[inds]
+
     omega = 2*np.pi*freqs
     single_pole = collection_eff/(1.+ omega*tau_collect*1j)
     integrand = 2*np.abs(single_pole)**2/(np.pi*Sp)
-- 
2.43.0


From f6769af69fab70ce0c374135dda71581041f7f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 59/75] fix: plot_noise_sim compared the type of the plot by
 identity, which fails for computed strings

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..219c3a1 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -545,25 +545,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From eeef959146462e1e9a1e4881d8230c0d49f6d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 60/75] fix: plot_reim_psd ignored lgcsave and savepath

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 4b5715b..430bfba 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -442,7 +442,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From 976c77cb473eaa80ad1118250c4a288ed3395700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 61/75] fix: compare_noise raised AttributeError for every
 channel

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 219c3a1..0193081 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].chandict:
+                        chan_index = arr[ii].chandict[chan] #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From 0bd464431312d91cc9f509d0479cb9dbb7a983a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 62/75] fix: plot_noise_sim overwrote the frequencies stored in
 the noise simulation

---
 qetpy/plotting/_noise_plotting.py | 42 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 0193081..179fdc4 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -598,7 +598,6 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -613,36 +612,36 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Current Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ites())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ites(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_iload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_iload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_isquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_isquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
@@ -686,7 +685,6 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -701,36 +699,36 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Power Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptes())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptes(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_pload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_pload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_psquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_psquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
-- 
2.43.0


From c93d948b2d5c8d65ceb165e7cf3ef1451aac28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 63/75] fix: plotting the IV, RV and PV curves raised TypeError
 when the plot is saved

---
 qetpy/core/_ibis.py | 9 +++------
 qetpy/core/_iv.py   | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index a822ebc..d45789f 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -748,7 +748,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_iv(
+        return utils._plot_iv(
             self,
             temps=temps,
             chans=chans,
@@ -757,7 +757,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -785,7 +784,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_rv(
+        return utils._plot_rv(
             self,
             temps=temps,
             chans=chans,
@@ -793,7 +792,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -820,7 +818,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_pv(
+        return utils._plot_pv(
             self,
             temps=temps,
             chans=chans,
@@ -828,7 +826,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_all_curves(self, temps="all", chans="all", showfit=True,
                         lgcsave=False, savepath="", savename=""):
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 27b9f95..33b7a53 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -351,9 +351,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
+        return utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -375,9 +374,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -399,9 +397,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_all_curves(self, temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
         """
-- 
2.43.0


From fb7ce33fcc6a1c782980929557d8f81f35edf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 64/75] fix: plot of the nonlinear fits was blank for short
 traces or for pulses close to the start

---
 qetpy/plotting/_fitting_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_fitting_plotting.py b/qetpy/plotting/_fitting_plotting.py
index ed8228e..143e5eb 100644
--- a/qetpy/plotting/_fitting_plotting.py
+++ b/qetpy/plotting/_fitting_plotting.py
@@ -46,7 +46,7 @@ def plotnonlin(OFnonlinOBJ, pulse, params, errors):
     ## get indices to define window ##
     t0ind = int(t0 * OFnonlinOBJ.fs) #location of timeoffset
 
-    nmin = t0ind - int(5 * tau_r * OFnonlinOBJ.fs) # 5 risetimes before offset
+    nmin = max(t0ind - int(5 * tau_r * OFnonlinOBJ.fs), 0) # 5 risetimes before offset
     if (OFnonlinOBJ.npolefit==3 or OFnonlinOBJ.npolefit==4):
         nmax = t0ind + int(9 * tau_f1 * OFnonlinOBJ.fs) # 9 falltimes after offset
     else:
@@ -55,7 +55,7 @@ def plotnonlin(OFnonlinOBJ, pulse, params, errors):
     nbaseline = int(OFnonlinOBJ.fs * t0) - 1000
     if nbaseline > 0:
         pulse = pulse - np.mean(pulse[:nbaseline])
-    else:
+    elif nbaseline + 10000 < len(pulse):
         pulse = pulse - np.mean(pulse[nbaseline + 10000:])
 
     f = OFnonlinOBJ.freqs
-- 
2.43.0


From d784ab8530a11978912d4dfe2d99a976685a394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 65/75] fix: plots of IV curves and dIdV raised ValueError for
 selections given as arrays

---
 qetpy/core/didv/_plot_didv.py    |  6 +++---
 qetpy/plotting/_ibis_plotting.py | 12 ++++++------
 qetpy/plotting/_iv_plotting.py   | 12 ++++++------
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index a7369e3..b34eba5 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -43,7 +43,7 @@ class _PlotDIDV(object):
     def _plot_time_domain(self, poles):
         """Helper function for plotting the fits in time domain."""
 
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -296,7 +296,7 @@ class _PlotDIDV(object):
     def _plot_freq_domain(self, function, poles):
         """Helper method for plotting data in frequency domain."""
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -521,7 +521,7 @@ class _PlotDIDV(object):
 
         """
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index 856cab3..dca9e3c 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -33,14 +33,14 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -114,14 +114,14 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -186,14 +186,14 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index 27ef5c7..a40e587 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -38,14 +38,14 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -137,14 +137,14 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -222,14 +222,14 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
-- 
2.43.0


From 2e73543a924a9bb9afa0e82a295872099b7f8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 66/75] fix: of_nsmb_con failed for search windows with indices
 outside of the trace, which of_nsmb wraps around

---
 qetpy/core/_of_nsmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index fe90db8..c3091f6 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -966,7 +966,8 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         chi2new[ii] = chi2base-chi2t0setMask
         
         
-    indwindow = indwindow_nsmb[0]
+    # indices before the start and beyond the end of the trace wrap around
+    indwindow = np.mod(indwindow_nsmb[0], nt)
     chi2new = np.squeeze(chi2new)
     chi2min= np.amin(chi2new[indwindow])
     ind_tdel_smNew = np.argmin(chi2new[indwindow])
-- 
2.43.0


From fd1d9bfb478f7b1a353313ee86c05043ff598766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 67/75] fix: ofamp_pileup_stationary searches outside of the
 window by default, as documented (and as the method of OptimumFilter does)

---
 qetpy/core/_fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 7edc324..794cbd9 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1360,7 +1360,7 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     return a1, t1, a2, t2, chi2
 
 def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
-                            nconstrain=None, lgcoutsidewindow=False):
+                            nconstrain=None, lgcoutsidewindow=True):
     """
     Function for calculating the optimum amplitude of a pileup pulse in
     data, with the assumption that the triggered pulse is centered in
-- 
2.43.0


From 94cd95e82da1cab13e92c2a7c8ab03c8ae2cd210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 68/75] fix: IBIS resistances and powers are floats also for
 currents given as integers

---
 qetpy/core/_ibis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index d45789f..f87dd17 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -254,10 +254,10 @@ class IBIS(object):
         self.vb_err = None
         self.ites = None
         self.ites_err = None
-        self.r0 = np.zeros_like(self.dites)
-        self.r0_err = np.zeros_like(self.dites)
-        self.ptes = np.zeros_like(self.dites)
-        self.ptes_err = np.zeros_like(self.dites)
+        self.r0 = np.zeros(self.dites.shape)
+        self.r0_err = np.zeros(self.dites.shape)
+        self.ptes = np.zeros(self.dites.shape)
+        self.ptes_err = np.zeros(self.dites.shape)
 
     @staticmethod
     def _fitfunc(x, b, m):
-- 
2.43.0


From c98b40546ba68f6f779a884e77cd49ac1700e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 69/75] fix: itercov accepts a list of points, as documented

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87d1362..8323d26 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -260,7 +260,7 @@ def itercov(*args, nsigma=2.75, threshold=None, maxiter=15, frac_err=1e-3):
     if len(datashape) > 2:
         ndim = datashape[-1]
         nevts = datashape[1]
-        data = args[0].T
+        data = np.asarray(args[0]).T
     elif len(datashape) == 2:
         ndim = datashape[0]
         nevts = datashape[-1]
-- 
2.43.0


From 5f06dc199e0f2c7ce22a9103f5eced00708d689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 70/75] fix: slope accepts lists without removal of the means,
 as documented

---
 qetpy/utils/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index d1f53e1..5eaddbd 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -329,6 +329,8 @@ def slope(x, y, removemeans=True):
 
     """
 
+    x, y = np.asarray(x), np.asarray(y)
+
     x_mean = np.mean(x) if removemeans else 0
     y_mean = np.mean(y) if removemeans else 0
 
-- 
2.43.0


From c488ac9d9d37e30d06eda69ebc7ce06280f923a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 71/75] fix: calc_psd accepts array_like data, as documented

---
 qetpy/core/_noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 430bfba..44cad90 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -66,6 +66,8 @@ def calc_psd(x, fs=1.0, folded_over=True):
         
     """
     
+    x = np.asarray(x)
+
     # calculate normalization for correct units
     norm = fs * x.shape[-1]
     
-- 
2.43.0


From 6c2c7e3c96bbfb35aca602af8f1a0f5632dfcba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:05 +0000
Subject: [PATCH 72/75] fix: foldpsd works for spectra of integers

---
 qetpy/core/_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 44cad90..86a64f4 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -34,7 +34,8 @@ def foldpsd(psd, fs):
             
     """
     
-    psd_folded = np.copy(psd[:len(psd)//2+1])
+    # (always a copy, and never of integers, which cannot be scaled in place)
+    psd_folded = psd[:len(psd)//2+1] * 1.0
     psd_folded[1:len(psd)//2+(len(psd))%2] *= 2.0
     f = rfftfreq(len(psd),d=1.0/fs)
     
-- 
2.43.0


From 1c6a5bb4060a0bc1a868f261fddf3ec99df41c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 73/75] fix: fit line of the IV plots for sweeps padded with
 NaN

---
 qetpy/plotting/_ibis_plotting.py | 6 +++---
 qetpy/plotting/_iv_plotting.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index dca9e3c..cf7c8c2 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -65,12 +65,12 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
                         xerr=IVobject.vb_err[t, ch]*1e6,
                          linestyle='None', color='k')
             if showfit:
-                maxind = np.argmax(abs(IVobject.vb[t, ch]))
+                maxind = np.nanargmax(abs(IVobject.vb[t, ch]))
                 
                 if IVobject.vb[t, ch, maxind] > 0:
-                    vbfit = np.linspace(0, max(IVobject.vb[t,ch]*1e6), num=10)
+                    vbfit = np.linspace(0, np.nanmax(IVobject.vb[t,ch]*1e6), num=10)
                 else:
-                    vbfit = np.linspace(min(IVobject.vb[t,ch]*1e6), 0, num=10)
+                    vbfit = np.linspace(np.nanmin(IVobject.vb[t,ch]*1e6), 0, num=10)
                     
                 ax.plot(vbfit, 1.0/(IVobject.rfit[t, ch])*vbfit, color=ch_colors[it*len(chrange) + ich], alpha=0.1)
 
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index a40e587..c925d9f 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -83,12 +83,12 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
                 color='k',
             )
             if showfit:
-                maxind = np.argmax(abs(IVobject.vb[t, ch]))
+                maxind = np.nanargmax(abs(IVobject.vb[t, ch]))
 
                 if IVobject.vb[t, ch, maxind] > 0:
-                    vbfit = np.linspace(0, max(IVobject.vb[t,ch]*1e6), num=10)
+                    vbfit = np.linspace(0, np.nanmax(IVobject.vb[t,ch]*1e6), num=10)
                 else:
-                    vbfit = np.linspace(min(IVobject.vb[t,ch]*1e6), 0, num=10)
+                    vbfit = np.linspace(np.nanmin(IVobject.vb[t,ch]*1e6), 0, num=10)
 
                 ax.plot(
                     vbfit,
-- 
2.43.0


From abf60ad1e985a55a20bf991e4d7230cb26998358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 74/75] fix: repeated analysis of an IBIS object overwrote the
 resistances and powers of the previous one in place

---
 qetpy/core/_ibis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index f87dd17..395a4e0 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -661,6 +661,12 @@ class IBIS(object):
         self.rp = rp[..., 0]
         self.rp_err = rp_err[..., 0]
 
+        # new arrays, as those of a previous analysis may still be in use
+        self.r0 = np.zeros(self.dites.shape)
+        self.r0_err = np.zeros(self.dites.shape)
+        self.ptes = np.zeros(self.dites.shape)
+        self.ptes_err = np.zeros(self.dites.shape)
+
         # Propagate fit errors to paramters
         for t in range(ntemps):
             for ch in range(nch):
-- 
2.43.0


From 5811c09581b94e3e134e1c84a84b2c72c919e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 75/75] fix: energy_res_estimate integrated over the
 frequencies in the order given, wrong for unsorted one-sided spectra

---
 qetpy/sim/_sim.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index afe738c..9cbe129 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -33,12 +33,16 @@ def energy_res_estimate(freqs, tau_collect, Sp, collection_eff):
 
     """
 
+    if np.any(np.diff(freqs) < 0):
+        # the integral runs over increasing frequencies
+        inds = np.argsort(freqs)
+        freqs = freqs[inds]
+        Sp = Sp[inds]
+
     if np.any(freqs < 0):
         # two sided PSD: fold to the one sided PSD, which contains the
         # power of both signs of the frequency
-        inds = np.argsort(freqs)
-        freqs = freqs[inds]
-        Sp = 4*Sp[inds]
+        Sp = 4*Sp
 
     omega = 2*np.pi*freqs
     single_pole = collection_eff/(1.+ omega*tau_collect*1j)
-- 
2.43.0

