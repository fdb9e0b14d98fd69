From 9e1a782d69904d7a5a14829b97f84bc292c7c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:39 +0000
Subject: [PATCH 01/21] fix: honour pre_emph_coeff in lfcc, bfcc, gfcc and
 lpc/lpcc instead of a hard-coded 0.97

---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From 7d32140d577578c3338c29bdbfb784a8b1c6a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:51 +0000
Subject: [PATCH 02/21] fix: inverse mel bank: accept the default high_freq and
 mirror centres within [low, high]

---
 spafe/fbanks/mel_fbanks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..b170c12 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -321,10 +321,11 @@ def inverse_mel_filter_banks(
     for i, pts in enumerate(imel_fbanks):
         imel_fbanks[i] = pts[::-1]
 
-    # get inverse freqs
+    # get inverse freqs (mirrored within the band)
+    high_freq = high_freq or fs / 2
     imel_center_freqs = [
         hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
+        for freq in (low_freq + high_freq - mel2hz(mel_freqs, conversion_approach))
     ]
 
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From 3162ebee6042a34cdb3ceb12e15a49958d7be4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:01 +0000
Subject: [PATCH 03/21] fix: lpc and lpcc analyse the windowed frames instead
 of the raw ones

---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From 5a26245685ccb7c94ed94581f811e0fc81b07a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:21 +0000
Subject: [PATCH 04/21] fix: LPC error energy pairs each coefficient with its
 own autocorrelation lag

---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..66ec4d0 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = r[0] + sum(r_k * a_k for r_k, a_k in zip(r[1:], phi))
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 704340b08c3002a7f026a168e6580bc057ca2316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:34 +0000
Subject: [PATCH 05/21] fix: lpc2lpcc uses the earlier cepstral coefficients
 (Makhoul recursion) and any nceps

---
 spafe/features/lpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 66ec4d0..d8e3268 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -219,8 +219,8 @@ def lpc2lpcc(a, e, nceps):
 
             C_{m}=\\left\\{\\begin{array}{l}
             log_{e}(p), & \\text{if } m = 0 \\\\
-            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
-            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+            -a_{m} - \\sum_{k=1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
+            -\\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
 
     References:
         .. [Makhoul] : Makhoul, J. (1975). Linear prediction: A tutorial review.
@@ -229,17 +229,17 @@ def lpc2lpcc(a, e, nceps):
                    Language Identification Using Spectral and Prosodic Features. 
                    SpringerBriefs in Electrical and Computer Engineering. doi:10.1007/978-3-319-17163-0
     """
-    p = len(a)
+    p = len(a) - 1
     c = [1] * nceps
 
     c[0] = np.log(zero_handling(e))
 
-    for m in range(1, p):
-        c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
+    for m in range(1, min(p + 1, nceps)):
+        c[m] = -a[m] - sum([(k / m) * c[k] * a[m - k] for k in range(1, m)])
 
     if nceps > p:
         for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+            c[m] = -sum([(k / m) * c[k] * a[m - k] for k in range(m - p, m)])
 
     return c
 
-- 
2.43.0


From ef82284d34e4d169b6bc6e4f4295fd7498b6fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:34 +0000
Subject: [PATCH 06/21] fix: dominant frequencies are looked up on the
 frequency axis of the one-sided FFT

---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From 8afaa61f0d5418818fad4565831381ce48b9e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 07/21] fix: spectral moments use the frequency axis of the
 one-sided spectrum they are given

---
 spafe/features/spfeats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..252b516 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -52,7 +52,7 @@ def spectral_centroid(fs: int, spectrum: np.ndarray, i: int = 1) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sc = np.sum(magnitude_spectrum * freqs**i) / np.sum(magnitude_spectrum)
@@ -83,7 +83,7 @@ def spectral_skewness(sig: np.ndarray, fs: int, spectrum: np.ndarray):
     mu2 = spectral_centroid(fs, spectrum, i=2)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 3) / (
@@ -116,7 +116,7 @@ def spectral_kurtosis(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
     mu2 = spectral_centroid(fs, spectrum, i=2)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 4) / (
@@ -176,7 +176,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # get centroid
     mu1 = spectral_centroid(fs, spectrum)
-- 
2.43.0


From 485c78f99a0da7f0d06e7d24c584f21db0118dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 08/21] fix: spectral spread is the weighted rms deviation from
 the centroid (a number, not an array)

---
 spafe/features/spfeats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 252b516..9ec7aee 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -170,7 +170,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     Note:
         .. math::
-            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1}) . s_k}{\\sum{0}{N}a_k}}
+            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1})^{2} . a_k}{\\sum{0}{N}a_k}}
     """
     # compute magnitude spectrum
     magnitude_spectrum = np.abs(spectrum)
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum((freqs - mu1) ** 2 * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0


From 0978e473bd15f6435d05b55675843448971a1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 09/21] fix: spectral rolloff returns the rolloff bin and is
 computed on the spectrum

---
 spafe/features/spfeats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 9ec7aee..cbaa39f 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -229,8 +229,8 @@ def spectral_rolloff(spectrum: np.ndarray, k: float = 0.85) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute the spectral rolloff point
-    i = k * np.sum(magnitude_spectrum)
-    return i
+    cumulated = np.cumsum(magnitude_spectrum)
+    return np.argmax(cumulated >= k * cumulated[-1])
 
 
 def spectral_flux(spectrum: np.ndarray, p: int = 2) -> float:
@@ -327,7 +327,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 2d09b3b4c70291d89b74a720fc8c15487a546dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 10/21] fix: spectral mean, rms, std and variance are real
 statistics of the magnitude spectrum

---
 spafe/features/spfeats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index cbaa39f..b8e121d 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -329,8 +329,8 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_flatness"] = spectral_flatness(spectrum)
     feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
-    feats["spectral_mean"] = np.mean(spectrum)
-    feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-    feats["spectral_std"] = np.std(spectrum)
-    feats["spectral_variance"] = np.var(spectrum)
+    feats["spectral_mean"] = np.mean(np.abs(spectrum))
+    feats["spectral_rms"] = np.sqrt(np.mean(np.abs(spectrum) ** 2))
+    feats["spectral_std"] = np.std(np.abs(spectrum))
+    feats["spectral_variance"] = np.var(np.abs(spectrum))
     return feats
-- 
2.43.0


From 7442fb795c070fd3460914fda487866c7903c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 11/21] fix: spectral entropy normalises the magnitude spectrum
 to a probability mass

---
 spafe/features/spfeats.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index b8e121d..1c7453b 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -13,6 +13,8 @@ from scipy import stats
 
 from typing_extensions import TypedDict
 
+from ..utils.preprocessing import zero_handling
+
 
 class SpectralFeats(TypedDict):
     spectral_skewness: float
@@ -138,7 +140,7 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     Note:
         .. math::
 
-            S_{entropy} &= \\frac{\sum_{n=0}^{N}(f_{k} - \\mu_{1})^{3} . a_k}{\\mu_{2}^{3} . \sum_{n=0}^{N}a_{k}}\\\\
+            S_{entropy} &= -\\frac{\sum_{k=1}^{N}p_{k} . log(p_{k})}{log(N)} , p_{k} = \\frac{a_k}{\sum_{n=1}^{N}a_{n}}\\\\
 
     References:
         .. [Misra] : Misra, H., S. Ikbal, H. Bourlard, and H. Hermansky.
@@ -147,11 +149,8 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     """
     # compute magnitude spectrum, and centroids
     magnitude_spectrum = np.abs(spectrum)
-    en = (
-        -1
-        * np.sum(magnitude_spectrum * np.log(magnitude_spectrum))
-        / np.log(len(magnitude_spectrum))
-    )
+    pmf = magnitude_spectrum / np.sum(magnitude_spectrum)
+    en = -1 * np.sum(pmf * np.log(zero_handling(pmf))) / np.log(len(pmf))
     return en
 
 
-- 
2.43.0


From 619cd8bc655576805c0bdd006a18af146d3b5080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 12/21] fix: Terhardt bark-to-Hz conversion inverts Hz-to-bark
 (13.3, not 13)

---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..6b94cb1 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -214,7 +214,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -262,7 +262,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From ad365e79b902d375bd0a0867322853eb37fedb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:23 +0000
Subject: [PATCH 13/21] fix: Traunmueller Hz-to-bark conversion follows the
 published formula and inverts bark-to-Hz

---
 spafe/utils/converters.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 6b94cb1..41d60ed 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,10 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        fb = ((26.81 * f) / (f + 1960)) - 0.53
+        # corrections at both ends of the scale, undone by bark2hz
+        fb = np.where(fb < 2, fb + 0.15 * (2 - fb), fb)
+        return np.where(fb > 20.1, fb + 0.22 * (fb - 20.1), fb)[()]
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +226,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
-- 
2.43.0


From ee04f3c3037616a99910c5ce9573fbac493bed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 14/21] fix: PNCC asymmetric lowpass filter keeps its
 documented first-frame initialisation

---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..72497a9 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -84,7 +84,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From b19713b64b0a33b8fc22f1dae35f2261147da846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 15/21] fix: PNCC weight smoothing averages over all channels
 l-N..l+N including both ends

---
 spafe/features/pncc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 72497a9..8a93a1d 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -163,11 +163,11 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2 + 1)]
             )
 
     return S_tilde
-- 
2.43.0


From 3ebfbfd17eb1065befbc53c58608cccb25813315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 16/21] fix: PNCC of digital silence is finite

---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 8a93a1d..001d0e2 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -160,6 +161,7 @@ def weight_smoothing(
         and :math:`\\tilde{S}` is the time-averaged, frequency-averaged transfer function.
     """
     L = nfilts
+    Q_tilde = zero_handling(Q_tilde)
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-- 
2.43.0


From 7e6d3d385508ef16c7fc0e956d2c637b395b2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 17/21] fix: MSRCC and PSRCC of silent bands are finite

---
 spafe/features/msrcc.py | 2 +-
 spafe/features/psrcc.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..ddb5de0 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -172,7 +172,7 @@ def psrcc(
     features = np.dot(fft_phases, fbanks.T)
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-- 
2.43.0


From 76fb02ed8219d520d8d74f4b546d94f9d1aa0fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 18/21] fix: RASTA-PLP of silent bands is finite

---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..0227fff 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum)
-- 
2.43.0


From f8c22b98e84ee153cf0656ed556a6d9dd2fad260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:52 +0000
Subject: [PATCH 19/21] fix: linear prediction of a silent frame returns the
 trivial predictor instead of failing

---
 spafe/features/lpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d8e3268..abfc6ca 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,7 +79,11 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
-    phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
+    if r[0] == 0:
+        # silent frame: nothing to predict
+        phi = np.zeros(order)
+    else:
+        phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
     e = r[0] + sum(r_k * a_k for r_k, a_k in zip(r[1:], phi))
     return a, np.sqrt(e**2)
-- 
2.43.0


From 3cb0de6733c54e1df3ce92ba74bad39349e0c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:06 +0000
Subject: [PATCH 20/21] fix: lifter weights are floats, so that large powers do
 not turn the result into an object array

---
 spafe/utils/cepstral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/cepstral.py b/spafe/utils/cepstral.py
index 282c57b..7574dc5 100644
--- a/spafe/utils/cepstral.py
+++ b/spafe/utils/cepstral.py
@@ -83,7 +83,7 @@ def lifter_ceps(ceps: np.ndarray, lift: int = 3) -> np.ndarray:
         return ceps
 
     elif lift > 0:
-        lift_vec = np.array([1] + [i**lift for i in range(1, ceps.shape[1])])
+        lift_vec = np.array([1] + [float(i) ** lift for i in range(1, ceps.shape[1])])
         lift_mat = np.diag(lift_vec)
         return np.dot(ceps, lift_mat)
 
-- 
2.43.0


From 7779293f1247fd9981beb97774bb1d19b454b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 21/21] fix: mel, inverse mel and linear banks place their
 filters at the frequencies of the fft bins

With a restricted band the columns were spread over [low_freq, high_freq]
although they are multiplied with fft bins that span [0, fs/2].
---
 spafe/fbanks/mel_fbanks.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index b170c12..c8ea042 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -56,7 +56,7 @@ def mel_filter_banks_helper(
 
     Tip:
         - :code:`scale` : can take the following options ["constant", "ascendant", "descendant"].
-        - :code:`fb_type` : can take the following options ["mel", "lin"].
+        - :code:`fb_type` : can take the following options ["mel", "imel", "lin"].
         - :code:`conversion_approach` : can take the following options ["Oshaghnessy", "Beranek", "Lindsay"].
           Note that the use of different options than the default can lead to unexpected behavior/issues.
 
@@ -71,7 +71,7 @@ def mel_filter_banks_helper(
     if high_freq > (fs / 2):
         raise ParameterError(ErrorMsgs["high_freq"])
 
-    if fb_type == "mel":
+    if fb_type in ("mel", "imel"):
         # convert bounding freqs
         low_mel = hz2mel(low_freq, conversion_approach)
         high_mel = hz2mel(high_freq, conversion_approach)
@@ -101,7 +101,11 @@ def mel_filter_banks_helper(
         center_freqs_hz = scale_freqs[1:-1]
         center_freqs = center_freqs_hz
 
-    freqs = np.linspace(low_freq, high_freq, nfft // 2 + 1)
+    # frequencies of the fft bins
+    freqs = np.arange(nfft // 2 + 1) * fs / nfft
+    if fb_type == "imel":
+        # mirror the filters within the band
+        freqs = low_freq + high_freq - freqs
     fbank = np.zeros((nfilts, nfft // 2 + 1))
 
     for j, (center, lower, upper) in enumerate(
@@ -313,14 +317,10 @@ def inverse_mel_filter_banks(
         low_freq=low_freq,
         high_freq=high_freq,
         scale=scales[scale],
-        fb_type="mel",
+        fb_type="imel",
         conversion_approach=conversion_approach,
     )
 
-    # inverse regular filter banks
-    for i, pts in enumerate(imel_fbanks):
-        imel_fbanks[i] = pts[::-1]
-
     # get inverse freqs (mirrored within the band)
     high_freq = high_freq or fs / 2
     imel_center_freqs = [
-- 
2.43.0

