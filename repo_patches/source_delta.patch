From 4d4162cfd48d56bb7aac244ea6d9bc2fa74a8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 01/18] fix: hz2bark Traunmueller divides by 1960 + f so that
 bark2hz inverts it

---
 spafe/utils/converters.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..1d9b795 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,9 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        fb = (26.81 * f) / (1960 + f) - 0.53
+        # correct the low and the high end of the scale (see __traunmueller_helper)
+        return fb + 0.15 * np.maximum(2 - fb, 0) + 0.22 * np.maximum(fb - 20.1, 0)
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +225,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{1960+f}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
-- 
2.43.0


From e73138adf8e0ba9d07cf713553fa0bc623c05783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 02/18] fix: bark2hz Terhardt inverts the factor 13.3 of
 hz2bark

---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 1d9b795..4460a7e 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -216,7 +216,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -264,7 +264,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From 4ab43a363e1ca6787388d3c795b04d8b62632d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 03/18] fix: honour pre_emph_coeff in the linear, Bark and ERB
 spectrograms, lpc and lpcc

---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From e015d966b65867c817581378db9fff74e6c50d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:59 +0000
Subject: [PATCH 04/18] fix: lpc and lpcc analyse the windowed frames

---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From f4bc5f4479aeba40bac2417f55e3f8e880ae00b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 05/18] fix: the LPC error is the sum of r[k] * a[k] over the
 lags 0..p

---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..d15f55f 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = np.dot(r, a)
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 4f6c7aac05997389f7dd030aa93b6614cb1539a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 06/18] fix: lpc2lpcc recurses on the earlier cepstra and
 accepts any number of cepstra

---
 spafe/features/lpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d15f55f..94c5c3f 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -219,8 +219,8 @@ def lpc2lpcc(a, e, nceps):
 
             C_{m}=\\left\\{\\begin{array}{l}
             log_{e}(p), & \\text{if } m = 0 \\\\
-            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
-            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } 1 <= m < p \\\\
+            \\sum_{k=m-p+1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } m >= p \\end{array}\\right.
 
     References:
         .. [Makhoul] : Makhoul, J. (1975). Linear prediction: A tutorial review.
@@ -234,12 +234,12 @@ def lpc2lpcc(a, e, nceps):
 
     c[0] = np.log(zero_handling(e))
 
-    for m in range(1, p):
-        c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
+    for m in range(1, min(p, nceps)):
+        c[m] = a[m] + sum([(k / m) * c[k] * a[m - k] for k in range(1, m)])
 
     if nceps > p:
-        for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+        for m in range(p, nceps):
+            c[m] = sum([(k / m) * c[k] * a[m - k] for k in range(m - p + 1, m)])
 
     return c
 
-- 
2.43.0


From 371d4885b2f3d3847ffcbce31229399608ffc0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 07/18] fix: asymmetric_lowpass_filtering keeps its initial
 frame and never reads the last one

---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..72497a9 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -84,7 +84,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From a6c96859937602756c2be8d6dcecb8c514e1bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 08/18] fix: weight_smoothing averages over all channels within
 N of l

---
 spafe/features/pncc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 72497a9..a58416e 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -163,11 +163,14 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [
+                    R_tilde[m, lprime] / Q_tilde[m, lprime]
+                    for lprime in range(l1, l2 + 1)
+                ]
             )
 
     return S_tilde
-- 
2.43.0


From 943899a3dd2583868afeb567664e6587131ea639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 09/18] fix: weight_smoothing does not divide by the zero power
 of silent frames

---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index a58416e..cc661e6 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -160,6 +161,7 @@ def weight_smoothing(
         and :math:`\\tilde{S}` is the time-averaged, frequency-averaged transfer function.
     """
     L = nfilts
+    Q_tilde = zero_handling(Q_tilde)
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-- 
2.43.0


From 038c989617b3158150abc6424f25a0c4205f28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 10/18] fix: inverse_mel_filter_banks accepts an omitted
 high_freq

---
 spafe/fbanks/mel_fbanks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..6efaa0c 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -305,6 +305,8 @@ def inverse_mel_filter_banks(
         "constant": "constant",
     }
 
+    high_freq = high_freq or fs / 2
+
     # generate inverse mel fbanks by inversing regular mel fbanks
     imel_fbanks, mel_freqs = mel_filter_banks_helper(
         nfilts=nfilts,
-- 
2.43.0


From fde45f4ee9ec8572cb2ab09aad96522c36abd6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 11/18] fix: inverse mel centre frequencies are mirrored inside
 [low_freq, high_freq]

---
 spafe/fbanks/mel_fbanks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 6efaa0c..b4a9136 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -326,7 +326,7 @@ def inverse_mel_filter_banks(
     # get inverse freqs
     imel_center_freqs = [
         hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
+        for freq in (low_freq + high_freq - mel2hz(mel_freqs, conversion_approach))
     ]
 
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From 73768f5d8e43e21e1fbdf25b9151e4d09a185869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 12/18] fix: dominant frequencies use the frequency axis of the
 real FFT

---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From 3eb77c25d236e001eb71bdebbc9d89d1762de3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 13/18] fix: extract_feats passes the spectrum to
 spectral_rolloff

---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..8b448ec 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -327,7 +327,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 80d6453d00f7013b19fab1cacb568d461b3e2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 14/18] fix: rasta_filter starts every row from the same
 initial filter state

---
 spafe/utils/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/utils/filters.py b/spafe/utils/filters.py
index e03b74f..5d7ccea 100644
--- a/spafe/utils/filters.py
+++ b/spafe/utils/filters.py
@@ -38,11 +38,11 @@ def rasta_filter(x: np.ndarray) -> np.ndarray:
 
     for i in range(x.shape[0]):
         # FIR for initial state response compuation
-        y1, z = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
+        y1, zf = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
         y1 = y1 * 0
 
         # IIR
-        y2, _ = signal.lfilter(numer, denom, x[i, 4 : x.shape[1]], axis=0, zi=z)
+        y2, _ = signal.lfilter(numer, denom, x[i, 4 : x.shape[1]], axis=0, zi=zf)
         y[i, :] = np.append(y1, y2)
     return y
 
-- 
2.43.0


From b1671d66df6be4f04fa48ac87cc23e1646a90127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 15/18] fix: msrcc replaces zero energies before applying the
 power

---
 spafe/features/msrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0


From 92209955036904c727a2259e24c73672821bab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 16/18] fix: psrcc replaces zero values before applying the
 power

---
 spafe/features/psrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..ddb5de0 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -172,7 +172,7 @@ def psrcc(
     features = np.dot(fft_phases, fbanks.T)
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-- 
2.43.0


From f4043cae4c17431883f8da77b1d860c7ae281d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:32 +0000
Subject: [PATCH 17/18] fix: rplp does not take the logarithm of zero energies

---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..0227fff 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum)
-- 
2.43.0


From 05094a602762af43c82e5122922becb0d744cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:04 +0000
Subject: [PATCH 18/18] fix: spectral_spread is the magnitude-weighted second
 central moment

---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 8b448ec..c9b15fd 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0

