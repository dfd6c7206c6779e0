From ed03bc0b4a3bf4624552ad6c3d162a485d333d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 01/51] fix: shift_params only shifts parameters, not weights
 or posteriors

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 6f560c4..cbde1c4 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -260,7 +260,7 @@ class Chain(ChainConfig):
 
         # Apply the mean shift if it is set to true
         if self.shift_params:
-            for param in self.samples:
+            for param in self.data_columns:
                 self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
 
         # Check the walkers
-- 
2.43.0


From 877437b1ae4bc42400dcbbe87c98cffe74fd4199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 02/51] fix: max posterior row is looked up by position, not by
 index label

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index cbde1c4..ce24fca 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -197,7 +197,7 @@ class Chain(ChainConfig):
             logging.warning("No posterior column found, cannot find max posterior")
             return None
         argmax = self.samples[self.posterior_column].argmax()
-        return self.samples.loc[argmax]  # type: ignore
+        return self.samples.iloc[argmax]  # type: ignore
 
     @property
     def weights(self) -> np.ndarray:
-- 
2.43.0


From 01e038a4f7fda50f263587be4f9da552b11abe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 03/51] fix: covariance and correlation of a single column are
 1x1 matrices

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index ce24fca..f6386a8 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -379,7 +379,7 @@ class Chain(ChainConfig):
         """
         if columns is None:
             columns = self.data_columns
-        cov = np.cov(self.samples[columns], rowvar=False, aweights=self.weights)
+        cov = np.atleast_2d(np.cov(self.samples[columns], rowvar=False, aweights=self.weights))
         return Named2DMatrix(columns=columns, matrix=cov)
 
     def get_correlation(self, columns: list[str] | None = None) -> Named2DMatrix:
-- 
2.43.0


From e8d56de2befc167347a215d405274d11d1d5e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 04/51] fix: LaTeX tables accept a percent sign in the caption
 and label

---
 src/chainconsumer/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 24d5d3e..ad7b913 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -131,6 +131,8 @@ def get_grid_bins(data: pd.Series[float]) -> np.ndarray:
 
 
 def get_latex_table_frame(caption: str, label: str) -> str:  # pragma: no cover
+    # The frame is filled in with % formatting, so escape anything which came from the user
+    caption, label = caption.replace("%", "%%"), label.replace("%", "%%")
     base_string = rf"""\begin{{table}}
     \centering
     \caption{{{caption}}}
-- 
2.43.0


From 4054f758c9350fbcd6e0a6b22352c0edeb7a2f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 05/51] fix: a bound with zero width at zero can be formatted

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 464e067..2eb47ca 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -451,7 +451,7 @@ class Analysis:
         elif upper_error != 0 and lower_error == 0:
             resolution = np.floor(np.log10(np.abs(upper_error)))
         else:
-            resolution = np.floor(np.log10(np.abs(bound.center)))
+            resolution = np.floor(np.log10(np.abs(bound.center))) if bound.center != 0 else 0
         factor = 0
         fmt = "%0.1f"
         r = 1
-- 
2.43.0


From d3265135eb918ec360dc21e8d88283fcf3545eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 06/51] fix: an empty list of bounds formats as an empty string

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 2eb47ca..49a44b5 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -402,7 +402,7 @@ class Analysis:
             no finite limits.
         """
 
-        if bound is None:
+        if bound is None or (isinstance(bound, Sequence) and len(bound) == 0):
             return ""
 
         # Fallback to single bound behavior if there is only one mode identified
-- 
2.43.0


From 096d64c05529a24740f753b4e32f4fa273d7eba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 07/51] fix: do not round parameter text twice when errors are
 tens

---
 src/chainconsumer/analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 49a44b5..786adb7 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -463,6 +463,7 @@ class Analysis:
             r = 0
         if resolution == 1:
             fmt = "%0.0f"
+            r = 0
         if resolution == -1:
             fmt = "%0.2f"
             r = 2
-- 
2.43.0


From 415f1207a6c09ae29db5c9001bfc4b7403a95558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 08/51] fix: an unresolvable marginal is reported as
 unconstrained instead of raising

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 786adb7..ae35f7d 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -680,7 +680,7 @@ class Analysis:
                     max_val = mid
                 elif area > chain.summary_area:
                     min_val = mid
-            except ValueError:
+            except (ValueError, IndexError):
                 self._logger.warning(f"Parameter {column} in chain {chain.name} is not constrained")
                 return Bound(lower=None, center=float(xs[start_index]), upper=None)
 
-- 
2.43.0


From f4cf1ca783de9744b309b64c3451b2daf990f29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 09/51] fix: plot_distributions draws truths at their parameter
 value and labels axes with the configured label

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index f471865..ba04331 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -521,9 +521,9 @@ class Plotter:
                     m = self._plot_bars(ax, p, chain, summary=param_summary)
                     if max_val is None or m > max_val:
                         max_val = m
-            plot_truths(ax, self.parent._truths, py=p)
+            plot_truths(ax, self.parent._truths, px=p)
             ax.set_ylim(0, 1.1 * max_val)
-            ax.set_xlabel(p, fontsize=self.config.label_font_size)
+            ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
         self._save_fig(fig, filename, dpi=self.config.dpi)
-- 
2.43.0


From 195d8e7cb4a1cc57ec8da9eb87a671b73101214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 10/51] fix: plot_distributions copes with no drawable marginal

---
 src/chainconsumer/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index ba04331..bbc805b 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -522,7 +522,8 @@ class Plotter:
                     if max_val is None or m > max_val:
                         max_val = m
             plot_truths(ax, self.parent._truths, px=p)
-            ax.set_ylim(0, 1.1 * max_val)
+            if np.isfinite(max_val):
+                ax.set_ylim(0, 1.1 * max_val)
             ax.set_xlabel(self.config.get_label(p), fontsize=self.config.label_font_size)
 
         add_watermark(fig, None, figsize, self.config, size_scale=0.8)
-- 
2.43.0


From e1de48fac575874261fec1fca6c88adce41f64f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 11/51] fix: plot_summary scales each parameter axis by its own
 parameter and skips markers

---
 src/chainconsumer/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index bbc805b..9bbe3dd 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -656,7 +656,7 @@ class Plotter:
                         ax.axvline(truth_value, **truth._kwargs)
 
                 # Skip if this chain doesn't have the parameter
-                if p not in chain.data_columns:
+                if p not in chain.data_columns or not (chain.plot_contour or chain.plot_cloud):
                     continue
 
                 # Plot the good stuff
@@ -673,8 +673,8 @@ class Plotter:
                         max_vals[p] = m
 
         for axes_row in axes:
-            for ax, p in zip(axes_row, base.columns, strict=False):
-                if not errorbar:
+            for ax, p in zip(axes_row[1:], base.columns, strict=False):
+                if not errorbar and p in max_vals:
                     ax.set_ylim(0, 1.1 * max_vals[p])
 
         add_watermark(fig, None, fig_size, self.config, size_scale=0.8)
-- 
2.43.0


From afde888eb4b4a6faddd490af491eba25e187a76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 12/51] fix: flip only affects the two parameter layout with
 histograms

---
 src/chainconsumer/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 9bbe3dd..3281ddf 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -777,7 +777,8 @@ class Plotter:
             spacing = 1.0 if n < 6 else 0.0
 
         gridspec_kw = {}
-        if n == 2 and self.config.plot_hists and self.config.flip:
+        flip = n == 2 and self.config.plot_hists and self.config.flip
+        if flip:
             gridspec_kw = {"width_ratios": [3, 1], "height_ratios": [1, 3]}
 
         fig, axes = plt.subplots(n, n, figsize=figsize, squeeze=False, gridspec_kw=gridspec_kw)
@@ -817,7 +818,7 @@ class Plotter:
                     logy = False
                     if p1 == p2:
                         if p1 in base.log_scales:
-                            if self.config.flip and j == n - 1:
+                            if flip and j == n - 1:
                                 ax.set_yscale("log")
                                 logy = True
                             else:
@@ -830,7 +831,7 @@ class Plotter:
                         if p2 in base.log_scales:
                             ax.set_xscale("log")
                             logx = True
-                    if i != n - 1 or (self.config.flip and j == n - 1):
+                    if i != n - 1 or (flip and j == n - 1):
                         ax.set_xticks([])
                     else:
                         if p2 in base.blind:
@@ -870,7 +871,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
-                    if (i != j or not self.config.plot_hists) or (self.config.flip and i == 1):
+                    if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
 
-- 
2.43.0


From 41671ecb7e232e032387fd3d1772e98dbaa11bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 13/51] fix: an explicit color of None still gets an automatic
 colour

---
 src/chainconsumer/chainconsumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index a6037e9..911d635 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -173,7 +173,7 @@ class ChainConsumer:
 
             # Check to see if the color is set
             if chain.color is None:
-                local_config["color"] = next(color_iter)
+                chain.color = next(color_iter)
 
             chain._apply_if_not_user_set(**local_config)
 
-- 
2.43.0


From 6bcd5134711007f84eee75f91841c8f0ec8756c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 14/51] fix: automatic colours repeat once the palette is
 exhausted

---
 src/chainconsumer/color_finder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 55d6ec5..80eab88 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -71,9 +71,10 @@ class Colors:
 
     def next_colour(self) -> Generator[str, None, None]:
         """A generator to return a sequence of colors"""
-        for index in [4, 7, 2, 8, 3, 6, 1, 5]:
-            for color in self.default_colors:
-                yield ALL_COLOURS[color][index]
+        while True:
+            for index in [4, 7, 2, 8, 3, 6, 1, 5]:
+                for color in self.default_colors:
+                    yield ALL_COLOURS[color][index]
 
     def format(self, color: ColorInput | None) -> str:
         if color is None:
-- 
2.43.0


From 580a374bce1800b4f439d5714fb7d57b18f81013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 15/51] fix: scale short and alpha hex colours

---
 src/chainconsumer/color_finder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 80eab88..9fac750 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex
+from matplotlib.colors import rgb2hex, to_hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -109,9 +109,9 @@ class Colors:
         return scaled
 
     def scale_colour(self, color: ColorInput, scalefactor: float) -> str:  # pragma: no cover
-        hexx = self.format(color).strip("#")
-        if scalefactor < 0 or len(hexx) != 6:
-            return hexx
+        hexx = to_hex(self.format(color)).strip("#")
+        if scalefactor < 0:
+            return f"#{hexx}"
         r, g, b = int(hexx[:2], 16), int(hexx[2:4], 16), int(hexx[4:], 16)
         r = self._clamp(int(r * scalefactor))
         g = self._clamp(int(g * scalefactor))
-- 
2.43.0


From 98257bffbb6c39277084420d65d1e69888a16612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 16/51] fix: automatic shade alpha is finite when no chain has
 contours

---
 src/chainconsumer/chainconsumer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 911d635..ed7250c 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -159,7 +159,7 @@ class ChainConsumer:
         global_config["bar_shade"] = num_chains < 5
         global_config["sigmas"] = [0, 1, 2]
         global_config["shade"] = num_chains < 5
-        global_config["shade_alpha"] = 1.0 / np.sqrt(num_chains)
+        global_config["shade_alpha"] = 1.0 / np.sqrt(max(1, num_chains))
 
         color_iter = colors.next_colour()
 
-- 
2.43.0


From fe3fc22db20acdfc4add7b852e20a9064e0b7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 17/51] fix: an empty var_names keeps every variable

---
 src/chainconsumer/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index f6386a8..3dcb5fd 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -500,7 +500,7 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
     Helper function to return the var_names to allows filtering parameters names.
     """
 
-    if var_names is None:
+    if not var_names:
         return all_vars
 
     negations = set([var.startswith("~") for var in var_names])
-- 
2.43.0


From 2cf0fbd600b8ac496dc82b623200af1427875251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 18/51] fix: comparison table column spec follows the requested
 columns

---
 src/chainconsumer/comparisons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/comparisons.py b/src/chainconsumer/comparisons.py
index 70a9ae5..2a4ae82 100644
--- a/src/chainconsumer/comparisons.py
+++ b/src/chainconsumer/comparisons.py
@@ -179,7 +179,7 @@ class Comparison:
 
         base_string = get_latex_table_frame(caption, label)
         end_text = " \\\\ \n"
-        num_cols = 1 + (1 if aic else 0) + (1 if bic else 0)
+        num_cols = (1 if dic else 0) + (1 if aic else 0) + (1 if bic else 0)
         column_text = "c" * (num_cols + 1)
         center_text = ""
         hline_text = "\\hline\n"
-- 
2.43.0


From d0a7c0842722b0168ffe6707ff52e40e682137cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 19/51] fix: plot_walks shows every step of every chain

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 3281ddf..8bfb14c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1033,7 +1033,7 @@ class Plotter:
             ax.set_ylim(extents)
         assert convolve is None or isinstance(convolve, int), "Convolve must be an integer pixel window width"
         x = np.arange(data.size)
-        ax.set_xlim(0, x[-1])
+        ax.set_xlim(0, max(x[-1], ax.get_xlim()[1]))
         ax.set_ylabel(self.config.get_label(column))
         if color is None:
             color = "#0345A1"
-- 
2.43.0


From e1f3ee271a6b04c78ed121f6898be5b9e5132d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 20/51] fix: power applies to 1D kernel density estimates

---
 src/chainconsumer/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index ae35f7d..6842274 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -352,6 +352,8 @@ class Analysis:
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
             ys = ys / area
+            if chain.power is not None:
+                ys = ys**chain.power
             ys = interp1d(kde_xs, ys, kind="linear")(xs)
         else:
             ys = interp1d(edge_centers, hist, kind="linear")(xs)
-- 
2.43.0


From 8b4d0ff5e2fd5d1651c601af86d6a7a36ec0ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 21/51] fix: kde sets the bandwidth factor, not the truncation

---
 src/chainconsumer/helpers.py           | 2 +-
 src/chainconsumer/plotting/contours.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index ad7b913..834060e 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -114,7 +114,7 @@ def get_smoothed_histogram2d(
         xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")
         coords = np.vstack((xx.flatten(), yy.flatten())).T
         data = np.vstack((x, y)).T
-        hist = MegKDE(data, w, chain.kde).evaluate(coords).reshape((nn, nn))
+        hist = MegKDE(data, w, factor=chain.kde).evaluate(coords).reshape((nn, nn))
         if chain.power is not None:
             hist = hist**chain.power
     elif chain.smooth_value:
diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 1dabfc4..b7e2940 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -93,7 +93,7 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
             from ..kde import MegKDE
 
             bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, chain.kde)
+            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
             xs = np.linspace(bins.min(), bins.max(), 1000)
             ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
             if chain.power is not None:
-- 
2.43.0


From 3dd535878048d5c632e0e855cead00701f64aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 22/51] fix: 1D KDE grid size does not depend on parameter
 values

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 6842274..c937df3 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -347,7 +347,7 @@ class Analysis:
             use_kde = bool(chain.kde)
 
         if use_kde:
-            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, int(bins.max())))
+            kde_xs = np.linspace(edge_centers[0], edge_centers[-1], max(200, bins.size))
             factor = chain.kde if isinstance(chain.kde, int | float) else 1.0
             ys = MegKDE(data.to_numpy(), chain.weights, factor=factor).evaluate(kde_xs)
             area = simps(ys, x=kde_xs)
-- 
2.43.0


From 1be4fd2810b7b841d28ec656e11f77e6647adbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 23/51] fix: truths can be given as a pandas series

---
 src/chainconsumer/truth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/truth.py b/src/chainconsumer/truth.py
index db84b6a..7d5d8cb 100644
--- a/src/chainconsumer/truth.py
+++ b/src/chainconsumer/truth.py
@@ -2,7 +2,7 @@ from typing import Any
 
 import pandas as pd
 from matplotlib.lines import Line2D
-from pydantic import Field, ValidationError, field_validator, model_validator
+from pydantic import Field, field_validator, model_validator
 
 from .base import BetterBase
 from .color_finder import ColorInput
@@ -30,14 +30,14 @@ class Truth(BetterBase):
         default=_DEFAULT_EDGE_WIDTH, description="The truth marker edge width for the contour plots"
     )
 
-    @field_validator("location")
+    @field_validator("location", mode="before")
     @classmethod
     def _ensure_dict(cls, v):
         if isinstance(v, dict):
             return v
         elif isinstance(v, pd.Series):
             return v.to_dict()
-        raise ValidationError("Truth must be a dict or a pandas Series")
+        raise ValueError("Truth must be a dict or a pandas Series")
 
     @model_validator(mode="after")
     def validate_model(self):
-- 
2.43.0


From 189f56978b1512a045b3460599d0f77251ff20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 24/51] fix: LaTeX tables fill every requested column

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index c937df3..2bdb6bf 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -134,7 +134,7 @@ class Analysis:
         final_columns = [c for c in final_columns if c not in blind]
         num_chains = len(final_chains)
         num_parameters = len(final_columns)
-        fit_values = self.get_summary(chains=final_chains)
+        fit_values = self.get_summary(chains=final_chains, columns=final_columns)
         if label is None:
             label = ""
         if caption is None:
-- 
2.43.0


From bd7c940d392fb342e2b9ccf9b1b6ce8614e40b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 25/51] fix: CDF based summaries accept masses at the edge of
 the distribution

---
 src/chainconsumer/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 2bdb6bf..8ae1ce1 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -499,14 +499,14 @@ class Analysis:
     def get_parameter_summary_mean(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         bounds[1] = 0.5 * (bounds[0] + bounds[2])
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_cumulative(self, chain: Chain, column: ColumnName) -> Bound | None:
         xs, _, cs = self._get_smoothed_histogram(chain, column)
         vals = [0.5 - chain.summary_area / 2, 0.5, 0.5 + chain.summary_area / 2]
-        bounds = interp1d(cs, xs)(vals)
+        bounds = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))(vals)
         return Bound(lower=bounds[0], center=bounds[1], upper=bounds[2])
 
     def get_parameter_summary_hdi(self, chain: Chain, column: ColumnName) -> Bound:
@@ -691,7 +691,7 @@ class Analysis:
     def get_parameter_summary_max_central(self, chain, parameter):
         xs, ys, cs = self._get_smoothed_histogram(chain, parameter)
 
-        c_to_x = interp1d(cs, xs)
+        c_to_x = interp1d(cs, xs, bounds_error=False, fill_value=(xs[0], xs[-1]))
         max_index = ys.argmax()
         x = xs[max_index]
 
-- 
2.43.0


From 4b92dee387eeef43964c3da3f2993862215f6273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 26/51] fix: hidden and blinded ticks stay hidden on log axes

---
 src/chainconsumer/plotter.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 8bfb14c..e59655f 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -14,7 +14,7 @@ from matplotlib.collections import PathCollection
 from matplotlib.figure import Figure
 from matplotlib.lines import Line2D
 from matplotlib.textpath import TextPath
-from matplotlib.ticker import LogLocator, MaxNLocator, ScalarFormatter
+from matplotlib.ticker import LogLocator, MaxNLocator, NullLocator, ScalarFormatter
 from scipy.interpolate import interp1d  # type: ignore
 
 from chainconsumer.plotting.truth import plot_truths  # type: ignore
@@ -391,6 +391,7 @@ class Plotter:
 
                 if p in base.blind:
                     ax.set_yticks([])
+                    ax.yaxis.set_minor_locator(NullLocator())
             else:  # noqa: PLR5501
                 if i == 0 and plot_posterior:
                     for chain in base.chains:
@@ -500,6 +501,7 @@ class Plotter:
                 ax.set_xscale("log")
             if p in base.blind:
                 ax.set_xticks([])
+                ax.xaxis.set_minor_locator(NullLocator())
             else:
                 if self.config.diagonal_tick_labels:
                     _ = [label.set_rotation(45) for label in ax.get_xticklabels()]
@@ -638,12 +640,13 @@ class Plotter:
                     ax.spines["top"].set_visible(False)
                 if i < (num_chains - 1):
                     ax.spines["bottom"].set_visible(False)
-                if i < (num_chains - 1) or p in base.blind:
-                    ax.set_xticks([])
-                ax.set_yticks([])
                 ax.set_xlim(base.extents[p])
                 if p in base.log_scales:
                     ax.set_xscale("log")
+                if i < (num_chains - 1) or p in base.blind:
+                    ax.set_xticks([])
+                    ax.xaxis.set_minor_locator(NullLocator())
+                ax.set_yticks([])
 
                 # Put title in
                 if i == 0:
@@ -860,6 +863,7 @@ class Plotter:
                             ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_xticks([])
+                        ax.xaxis.set_minor_locator(NullLocator())
                     if display_y_ticks:
                         if self.config.diagonal_tick_labels:
                             _ = [label.set_rotation(45) for label in ax.get_yticklabels()]
@@ -871,6 +875,7 @@ class Plotter:
                             ax.yaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                     else:
                         ax.set_yticks([])
+                        ax.yaxis.set_minor_locator(NullLocator())
                     if (i != j or not self.config.plot_hists) or (flip and i == 1):
                         ax.set_ylim(base.extents[p1])
                     ax.set_xlim(base.extents[p2])
-- 
2.43.0


From 8d2058825e83f0e3055f616c8caa7c43562c36c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 27/51] fix: legend entry of a chain drawn as a point works
 with any line style

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index e59655f..7b15df1 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -88,7 +88,7 @@ def get_artists_from_chains(chains: list[Chain]) -> list[Artist]:
                     (0, 1),
                     (0, 0),
                     color=colors.format(chain.color),
-                    ls=chain.linestyle,
+                    ls="none",
                     lw=0,
                     marker=chain.marker_style,
                     markersize=np.sqrt(chain.marker_size),
-- 
2.43.0


From e1007b5113e26832cbf1ee7039acba14349845db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 28/51] fix: shift_params shifts once, and as an override never
 alters the stored chain

---
 src/chainconsumer/chain.py         | 14 +++++++++++---
 src/chainconsumer/chainconsumer.py |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 3dcb5fd..9e5741f 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -150,6 +150,8 @@ class Chain(ChainConfig):
         ge=0.0,
     )
 
+    _shifted: pd.DataFrame | None = None
+
     @property
     def data_columns(self) -> list[str]:
         """The columns in the dataframe which are not weights or posteriors."""
@@ -259,9 +261,7 @@ class Chain(ChainConfig):
             assert np.all(np.isfinite(self.samples[column])), f"Column {column} has NaN or inf in it"
 
         # Apply the mean shift if it is set to true
-        if self.shift_params:
-            for param in self.data_columns:
-                self.samples[param] -= np.average(self.samples[param], weights=self.weights)  # type: ignore
+        self._shift()
 
         # Check the walkers
         assert self.samples.shape[0] % self.walkers == 0, (
@@ -296,6 +296,14 @@ class Chain(ChainConfig):
 
         return self
 
+    def _shift(self) -> None:
+        """Subtract the means if asked to, once, and never on a frame shared with another chain."""
+        if self.shift_params and self._shifted is not self.samples:
+            shifted = self.samples.copy()
+            for param in self.data_columns:
+                shifted[param] -= np.average(shifted[param], weights=self.weights)  # type: ignore
+            self.samples = self._shifted = shifted
+
     def get_data(self, column: str) -> pd.Series[float]:
         """Extracts a single columns from the samples dataframe."""
         return self.samples[column]
diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index ed7250c..34ba20a 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -180,6 +180,7 @@ class ChainConsumer:
             # Apply user overrides
             if self._global_chain_override is not None:
                 chain._apply(**self._global_chain_override.get_user_specified_dump())
+                chain._shift()
 
         return final_chains
 
-- 
2.43.0


From a6a3181ff6de2c323f4af0aa98a1601ca6d86dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 29/51] fix: walkers of a shifted chain keep their relative
 positions

---
 src/chainconsumer/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 9e5741f..96487b7 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -358,6 +358,7 @@ class Chain(ChainConfig):
             options = self.model_dump(exclude={"samples", "name", "walkers"})
             if "color" in options:
                 options.pop("color")
+            options["shift_params"] = False  # the samples are already shifted, together
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
             chains.append(chain)
 
-- 
2.43.0


From 854570af57a1533777bf7f8bd3bf2670385c78cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 30/51] fix: weights of one chain are not drawn as a parameter
 of another

---
 src/chainconsumer/analysis.py |  4 ++--
 src/chainconsumer/chain.py    |  8 ++++++++
 src/chainconsumer/plotter.py  | 10 ++++++----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 8ae1ce1..2c24168 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -13,7 +13,7 @@ from scipy.ndimage import gaussian_filter
 from scipy.optimize import root_scalar
 
 from .base import BetterBase
-from .chain import Chain, ChainName, ColumnName, MaxPosterior, Named2DMatrix
+from .chain import Chain, ChainName, ColumnName, MaxPosterior, Named2DMatrix, has_parameter
 from .helpers import get_bins, get_grid_bins, get_latex_table_frame, get_smoothed_bins
 from .kde import MegKDE
 from .statistics import SummaryStatistic
@@ -209,7 +209,7 @@ class Analysis:
             res = {}
             params_to_find = columns if columns is not None else chain.data_columns
             for p in params_to_find:
-                if p not in chain.samples:
+                if not has_parameter(chain, p, chains):
                     continue
                 summary = self.get_parameter_summary(chain, p)
                 res[p] = summary
diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 96487b7..864c400 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -530,3 +530,11 @@ def _filter_var_names(var_names: list[str] | None, all_vars: list[str]) -> list[
         # keep var_names as is but check if var is in all_vars
         var_names = [var for var in all_vars if var in var_names]
         return var_names
+
+
+def has_parameter(chain: Chain, column: ColumnName, chains: list[Chain]) -> bool:
+    """If the column is shown for this chain: a weight, posterior or colour column is not
+    a parameter just because another chain has a parameter of that name."""
+    if column in chain.plotting_columns:
+        return True
+    return column in chain.samples and not any(column in c.plotting_columns for c in chains)
diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 7b15df1..cb727df 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -21,7 +21,7 @@ from chainconsumer.plotting.truth import plot_truths  # type: ignore
 from chainconsumer.truth import Truth
 
 from .base import BetterBase
-from .chain import Chain, ChainName, ColumnName
+from .chain import Chain, ChainName, ColumnName, has_parameter
 from .color_finder import colors
 from .helpers import get_bins, get_extents, get_grid_bins, get_smoothed_bins
 from .plotting import add_watermark, plot_surface
@@ -203,7 +203,7 @@ class Plotter:
 
                     # Plot each chain
                     for chain in base.chains:
-                        if not chain.plot_contour or p1 not in chain.samples:
+                        if not chain.plot_contour or not has_parameter(chain, p1, base.chains):
                             continue
 
                         do_summary = summarise and p1 not in base.blind
@@ -371,7 +371,7 @@ class Plotter:
             if i >= extra:
                 p = base.columns[i - extra]
                 for chain in base.chains:
-                    if p in chain.data_columns:
+                    if p in chain.data_columns and has_parameter(chain, p, base.chains):
                         chain_row = chain.get_data(p)
                         if len(chain_row) > max_points:
                             chain_row = chain_row[:: int(len(chain_row) / max_points)]
@@ -661,6 +661,8 @@ class Plotter:
                 # Skip if this chain doesn't have the parameter
                 if p not in chain.data_columns or not (chain.plot_contour or chain.plot_cloud):
                     continue
+                if not has_parameter(chain, p, base.chains):
+                    continue
 
                 # Plot the good stuff
                 if errorbar:
@@ -887,7 +889,7 @@ class Plotter:
     ) -> tuple[float, float]:
         min_val, max_val = np.inf, -np.inf
         for chain in chains:
-            if column not in chain.samples:
+            if not has_parameter(chain, column, chains):
                 continue  # pragma: no cover
 
             data = chain.get_data(column)
-- 
2.43.0


From 2cefa7ae57bd00a104aca86866178c2fe6b23a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 31/51] fix: contours do not depend on the overall scale of the
 weights

---
 src/chainconsumer/plotting/contours.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index b7e2940..ceb01d2 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -202,7 +202,7 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     ]
 
     hist, x_centers, y_centers = get_smoothed_histogram2d(chain, px, py)
-    hist[hist == 0] = 1e-16
+    hist[hist == 0] = 1e-16 * hist.max()
     vals = _convert_to_stdev(hist)
 
     if chain.shade and chain.shade_alpha > 0:
-- 
2.43.0


From 0285e897723d596e19e7089085d3165b1cbf8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 32/51] fix: shading of a multimodal chain stays within its
 unsmoothed histogram

---
 src/chainconsumer/plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index cb727df..1e9928c 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -986,7 +986,9 @@ class Plotter:
                 else:
                     display_bounds = base_bound
                     intervals = [(display_bounds.lower, display_bounds.upper)]
-                    intervals = [(max(lower, xs.min()), min(upper, xs.max())) for lower, upper in intervals]
+
+                # The summary may be wider than the curve drawn
+                intervals = [tuple(np.clip(interval, xs.min(), xs.max())) for interval in intervals]
 
                 for lower, upper_ in intervals:
                     x = np.linspace(lower, upper_, 1000)
-- 
2.43.0


From 54d575a73ed119b98d1f9b626b6e351a339db659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 33/51] fix: max summary holds the requested area at the edge
 of the data; the padding is no mass

---
 src/chainconsumer/analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 2c24168..5299b92 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -656,8 +656,7 @@ class Analysis:
         y_end = np.linspace(ys[-1], 0, n_pad)
         xs = np.concatenate((x_start, xs, x_end))
         ys = np.concatenate((y_start, ys, y_end))
-        cs = ys.cumsum()
-        cs = cs / cs.max()
+        cs = np.concatenate((np.zeros(n_pad), cs, np.full(n_pad, cs[-1])))  # the padding holds no mass
         start_index = ys.argmax()
         max_val = ys[start_index]
         min_val = 0
-- 
2.43.0


From 63edb95a66d470d952fd3c537263b81739b9112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 34/51] fix: density threshold of multimodal bands does not
 depend on the units of the parameter

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index 5299b92..da69f32 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -602,7 +602,7 @@ class Analysis:
             bracket=(0.0, float(np.max(density))),
             args=(density, xs, chain.summary_area),
             method="bisect",
-            xtol=5e-4,
+            xtol=5e-4 * float(np.max(density)),
         )
 
         threshold = sol.root
-- 
2.43.0


From 882995952c79500bd4f1deef20edc674048e1997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 35/51] fix: HDI of parameters of tiny magnitude

---
 src/chainconsumer/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index da69f32..cc5c4aa 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -530,6 +530,7 @@ class Analysis:
         x_points = np.concatenate(([xs[0]], xs))
 
         eps = 1e-12
+        eps_width = eps * float(x_points[-1] - x_points[0])
         best_width = float("inf")
         best_lower = float(x_points[0])
         best_upper = float(x_points[-1])
@@ -557,10 +558,10 @@ class Analysis:
             lower = float(x_points[start_idx])
             upper = float(x_points[end_idx])
             width = upper - lower
-            if width <= eps:
+            if width <= eps_width:
                 continue
 
-            if width < best_width - eps:
+            if width < best_width - eps_width:
                 best_width = width
                 best_lower = lower
                 best_upper = upper
-- 
2.43.0


From 07c99cb6e4a201320857bc783ac82f31af7d6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 36/51] fix: a multimodal chain with a single band is titled
 with its summary

---
 src/chainconsumer/plotter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1e9928c..4cf2918 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -981,6 +981,7 @@ class Plotter:
 
                     # If we get a single interval, fallback to unimodal HDI
                     if len(intervals) < 2:
+                        display_bounds = base_bound
                         intervals = [(base_bound.lower, base_bound.upper)]
 
                 else:
-- 
2.43.0


From 2457353da2f34e44c32f4b3e99846e5b24bbcedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 37/51] fix: bounds without limits among several get no text

---
 src/chainconsumer/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/analysis.py b/src/chainconsumer/analysis.py
index cc5c4aa..7b1cebd 100644
--- a/src/chainconsumer/analysis.py
+++ b/src/chainconsumer/analysis.py
@@ -412,7 +412,7 @@ class Analysis:
             bound = bound[0]
 
         if isinstance(bound, Sequence) and not isinstance(bound, Bound):
-            bounds = [b for b in bound if isinstance(b, Bound) and not b.all_none]
+            bounds = [b for b in bound if isinstance(b, Bound) and None not in (b.lower, b.center, b.upper)]
             if not bounds:
                 return ""
 
-- 
2.43.0


From 42fb1a00a21eda1ab15cf98347e0f4e3ef5c568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 38/51] fix: automatic settings of a divided chain stay
 automatic

---
 src/chainconsumer/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chainconsumer/chain.py b/src/chainconsumer/chain.py
index 864c400..5f93dea 100644
--- a/src/chainconsumer/chain.py
+++ b/src/chainconsumer/chain.py
@@ -360,6 +360,7 @@ class Chain(ChainConfig):
                 options.pop("color")
             options["shift_params"] = False  # the samples are already shifted, together
             chain = Chain(samples=df, name=f"{self.name} Walker {i}", **options)
+            chain._user_specified = self._user_specified - {"color"}  # what was automatic stays automatic
             chains.append(chain)
 
         return chains
-- 
2.43.0


From 6823e9e9497426cadd6b5115918fb456973b9e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 39/51] fix: plot_dist draws the density of KDE and gridded
 chains

---
 src/chainconsumer/plotting/contours.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index ceb01d2..33af890 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -2,7 +2,6 @@ import numpy as np
 from matplotlib.axes import Axes
 from matplotlib.collections import PathCollection
 from scipy.interpolate import interp1d
-from scipy.ndimage import gaussian_filter
 from scipy.stats import norm
 
 from ..chain import Chain, ColumnName
@@ -87,27 +86,9 @@ def plot_dist(ax: Axes, chain: Chain, px: ColumnName, config: PlotConfig | None
     # Create histogram based on chain settings (following _plot_bars logic from plotter.py)
     if chain.smooth_value or chain.kde:
         # Use KDE or smoothed histogram
-        from ..helpers import get_bins, get_smoothed_bins
-
-        if chain.kde:
-            from ..kde import MegKDE
-
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            kde = MegKDE(data.values.reshape(-1, 1), chain.weights, factor=chain.kde)
-            xs = np.linspace(bins.min(), bins.max(), 1000)
-            ys = kde.evaluate(xs.reshape(-1, 1)).flatten()
-            if chain.power is not None:
-                ys = ys**chain.power
-        else:
-            # Smoothed histogram
-            bins, _ = get_smoothed_bins(chain.smooth_value, get_bins(chain), data, chain.weights, pad=True)
-            hist, edges = np.histogram(data, bins=bins, density=True, weights=chain.weights)
-            if chain.power is not None:
-                hist = hist**chain.power
-            hist = gaussian_filter(hist, chain.smooth_value, mode="reflect")
-            xs = 0.5 * (edges[:-1] + edges[1:])
-            ys = hist
+        from ..analysis import Analysis
 
+        xs, ys, _ = Analysis(None)._get_smoothed_histogram(chain, px, pad=True)  # type: ignore
         ys *= chain.histogram_relative_height
         ax.plot(xs, ys, color=chain.color, ls=chain.linestyle, lw=chain.linewidth, zorder=chain.zorder)
     else:
-- 
2.43.0


From 5c1defa7c68a246626895043678ae35c9d727785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 40/51] fix: draw shaded contours of a single sigma level

---
 src/chainconsumer/plotting/contours.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index 33af890..eedfbbb 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -186,7 +186,8 @@ def plot_contour(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName, config:
     hist[hist == 0] = 1e-16 * hist.max()
     vals = _convert_to_stdev(hist)
 
-    if chain.shade and chain.shade_alpha > 0:
+    # There is only something to fill between two levels
+    if chain.shade and chain.shade_alpha > 0 and len(levels) > 1:
         ax.contourf(
             x_centers,
             y_centers,
-- 
2.43.0


From 98797ec91459b01b95ae3e45fee2124ed937644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 41/51] fix: keep samples piled up at the ends of the range

---
 src/chainconsumer/helpers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 834060e..3238cdd 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -32,6 +32,13 @@ def get_extents(
     i2 = np.where(icdf > threshold)[0][0]
     lower = float(bc[i1])
     upper = float(bc[-i2])
+    # The cumulatives start at zero, which leaves out what is at the very ends of the range: fine for a stray
+    # sample, but not for a real share of them (a discrete parameter, or samples piled up against a boundary)
+    share = max(threshold, 1e-3) * hist.sum()
+    if hist[0] > share and np.sum(data < be[1]) > 1:
+        lower = float(be[0])
+    if hist[-1] > share and np.sum(data >= be[-2]) > 1:
+        upper = float(be[-1])
     if pad:
         width = upper - lower
         lower -= 0.2 * width
-- 
2.43.0


From 12a32f7a697513b416fd11b2ffbfd2f45ee9c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 42/51] fix: keep plotted points within the axes

---
 src/chainconsumer/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 4cf2918..1cb8ea0 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -901,11 +901,11 @@ class Plotter:
                 else:
                     min_prop, max_prop = get_extents(data, chain.weights, plot=True, wide_extents=wide_extents)
 
-            else:
+            if chain.plot_point or not (chain.plot_contour or chain.plot_cloud):
                 point = chain.get_max_posterior_point()
                 if point is not None and column in point.coordinate:
-                    min_prop = point.coordinate[column]
-                    max_prop = min_prop
+                    min_prop = min(min_prop, point.coordinate[column])
+                    max_prop = max(max_prop, point.coordinate[column])
 
             min_val = min(min_prop, min_val)
             max_val = max(max_prop, max_val)
-- 
2.43.0


From 06f2081f5f6fd4624b793e765b46c0986d53bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:49 +0000
Subject: [PATCH 43/51] fix: colour alias e names an existing palette

---
 src/chainconsumer/color_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 9fac750..1b5b628 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -48,7 +48,7 @@ class Colors:
             "y": "yellow",
             "a": "amber",
             "p": "purple",
-            "e": "grey",
+            "e": "gray",
             "lg": "lime",
             "lb": "sky",
             "black": "gray",
-- 
2.43.0


From 201244f8b2527666dbc844f3073add9c49fc2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 44/51] fix: refuse malformed hex colours

---
 src/chainconsumer/color_finder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/color_finder.py b/src/chainconsumer/color_finder.py
index 1b5b628..193caa6 100644
--- a/src/chainconsumer/color_finder.py
+++ b/src/chainconsumer/color_finder.py
@@ -2,7 +2,7 @@ from collections.abc import Generator, Iterable
 
 import matplotlib.pyplot as plt
 import numpy as np
-from matplotlib.colors import rgb2hex, to_hex
+from matplotlib.colors import is_color_like, rgb2hex, to_hex
 
 # Colours drawn from tailwind: https://tailwindcss.com/docs/customizing-colors
 
@@ -81,7 +81,9 @@ class Colors:
             return next(iter(self.next_colour()))
         elif isinstance(color, np.ndarray | list):
             color = rgb2hex(color)  # type: ignore
-        if color[0] == "#":
+        if color.startswith("#"):
+            if not is_color_like(color):
+                raise ValueError(f"Color {color} is not a valid hex code")
             return color
         elif color in ALL_COLOURS:
             return ALL_COLOURS[color][4]
-- 
2.43.0


From 79d0f03ee4a6a3503a7d5bde7ee94dcda62ae3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 45/51] fix: range of samples depends on the shares of the
 weight alone

---
 src/chainconsumer/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/helpers.py b/src/chainconsumer/helpers.py
index 3238cdd..b13fa24 100644
--- a/src/chainconsumer/helpers.py
+++ b/src/chainconsumer/helpers.py
@@ -34,10 +34,12 @@ def get_extents(
     upper = float(bc[-i2])
     # The cumulatives start at zero, which leaves out what is at the very ends of the range: fine for a stray
     # sample, but not for a real share of them (a discrete parameter, or samples piled up against a boundary)
-    share = max(threshold, 1e-3) * hist.sum()
-    if hist[0] > share and np.sum(data < be[1]) > 1:
+    # (which with only a handful of values means a heavy one). This must depend on the shares of the weight alone,
+    # not on the number of samples, for a sample of weight two is the same as the sample twice.
+    share = max(threshold, 1.1e-3 if np.count_nonzero(hist) > 20 else 0.155) * hist.sum()
+    if hist[0] > share:
         lower = float(be[0])
-    if hist[-1] > share and np.sum(data >= be[-2]) > 1:
+    if hist[-1] > share:
         upper = float(be[-1])
     if pad:
         width = upper - lower
-- 
2.43.0


From 6c562a70c11ece970e2b74e195e67e296fc9438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:49 +0000
Subject: [PATCH 46/51] fix: smoothed walk with a window of one step or longer
 than a chain

---
 src/chainconsumer/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1cb8ea0..75541e5 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -1055,12 +1055,12 @@ class Plotter:
         else:
             ax.yaxis.set_major_locator(MaxNLocator(max_ticks, prune="lower"))
 
-        if convolve is not None:
+        if convolve is not None and convolve <= data.size:
             trim = int(0.5 * convolve)
             color2 = colors.scale_colour(color, 0.5)
             filt = np.ones(convolve) / convolve
             filtered = np.convolve(data, filt, mode="same")
-            ax.plot(x[trim:-trim], filtered[trim:-trim], color=color2, alpha=1)
+            ax.plot(x[trim : x.size - trim], filtered[trim : x.size - trim], color=color2, alpha=1)
 
     def _plot_walk_truth(self, ax: Axes, truth: Truth, col: str) -> None:
         ax.axhline(truth.location[col], **truth._kwargs)
-- 
2.43.0


From d488fb8a0d20380281f87124733311a8244020cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:48 +0000
Subject: [PATCH 47/51] fix: clouds sharing a colour parameter share one colour
 scale

---
 src/chainconsumer/plotting/contours.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotting/contours.py b/src/chainconsumer/plotting/contours.py
index eedfbbb..45c53a7 100644
--- a/src/chainconsumer/plotting/contours.py
+++ b/src/chainconsumer/plotting/contours.py
@@ -25,12 +25,13 @@ def plot_surface(
     if config is None:
         config = PlotConfig()
     paths: dict[ColumnName, PathCollection] = {}
+    limits = get_color_limits(chains)
     for chain in chains:
         if px not in chain.plotting_columns or py not in chain.plotting_columns:
             continue
 
         if chain.plot_cloud:
-            paths |= plot_cloud(ax, chain, px, py)
+            paths |= plot_cloud(ax, chain, px, py, limits.get(chain.color_param))
 
         if chain.plot_contour:
             plot_contour(ax, chain, px, py, config)
@@ -41,12 +42,30 @@ def plot_surface(
     return paths
 
 
-def plot_cloud(ax: Axes, chain: Chain, px: ColumnName, py: ColumnName) -> dict[ColumnName, PathCollection]:
+def get_color_limits(chains: list[Chain]) -> dict[ColumnName | None, tuple[float, float]]:
+    """The range of values of each colour parameter over all clouds using it, as they share one colorbar."""
+    limits: dict[ColumnName | None, tuple[float, float]] = {}
+    for chain in chains:
+        if chain.plot_cloud and chain.color_data is not None:
+            values = chain.color_data[:: max(1, int(len(chain.samples) / chain.num_cloud))]
+            low, high = limits.get(chain.color_param, (np.inf, -np.inf))
+            limits[chain.color_param] = (min(low, np.min(values)), max(high, np.max(values)))
+    return limits
+
+
+def plot_cloud(
+    ax: Axes,
+    chain: Chain,
+    px: ColumnName,
+    py: ColumnName,
+    color_limits: tuple[float, float] | None = None,
+) -> dict[ColumnName, PathCollection]:
     x = chain.get_data(px)
     y = chain.get_data(py)
     skip = max(1, int(x.size / chain.num_cloud))
     if chain.color_data is not None:
-        kwargs = {"c": chain.color_data[::skip], "cmap": chain.cmap}
+        vmin, vmax = color_limits or (None, None)
+        kwargs = {"c": chain.color_data[::skip], "cmap": chain.cmap, "vmin": vmin, "vmax": vmax}
     else:
         kwargs = {"c": colors.format(chain.color), "alpha": 0.3}
 
-- 
2.43.0


From a5de012ebf21f5ef05d8e253eed4737b3b582e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:34 +0000
Subject: [PATCH 48/51] fix: keep the font families in force when the consumer
 is created

---
 src/chainconsumer/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 75541e5..1712c02 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -118,7 +118,7 @@ class Plotter:
         self._default_config = PlotConfig()
 
         self.usetex_old = matplotlib.rcParams["text.usetex"]
-        self.serif_old = matplotlib.rcParams["font.family"]
+        self.serif_old = list(matplotlib.rcParams["font.family"])
 
     def set_config(self, config: PlotConfig) -> None:
         """Sets the plot config to the chosen `PlotConfig` model.
-- 
2.43.0


From 857b04c970fa276455e662ef4c00e0f3d6a7ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:54 +0000
Subject: [PATCH 49/51] fix: use the HDI for chains which the override makes
 multimodal

---
 src/chainconsumer/chainconsumer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chainconsumer/chainconsumer.py b/src/chainconsumer/chainconsumer.py
index 34ba20a..49e7806 100644
--- a/src/chainconsumer/chainconsumer.py
+++ b/src/chainconsumer/chainconsumer.py
@@ -9,6 +9,7 @@ from .color_finder import ColorInput, colors
 from .comparisons import Comparison
 from .diagnostic import Diagnostic
 from .plotter import PlotConfig, Plotter
+from .statistics import SummaryStatistic
 from .truth import Truth
 
 __all__ = ["ChainConsumer"]
@@ -181,6 +182,10 @@ class ChainConsumer:
             if self._global_chain_override is not None:
                 chain._apply(**self._global_chain_override.get_user_specified_dump())
                 chain._shift()
+                # Multimodal chains which have no statistic asked for use the HDI
+                specified = chain._user_specified | self._global_chain_override._user_specified
+                if chain.multimodal and "statistics" not in specified:
+                    chain.statistics = SummaryStatistic.HDI
 
         return final_chains
 
-- 
2.43.0


From d4de8f2b87c015487d2c51162ceb02d12eab6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 50/51] fix: give each distribution panel its own tick
 formatter

---
 src/chainconsumer/plotter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index 1712c02..d366a7d 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -487,9 +487,6 @@ class Plotter:
         fig, axes = plt.subplots(nrows=num_rows, ncols=num_cols, figsize=figsize, squeeze=False)
         fig.subplots_adjust(left=0.1, right=0.95, top=0.95, bottom=0.1, wspace=0.05, hspace=hspace)
 
-        formatter = ScalarFormatter(useOffset=False)
-        formatter.set_powerlimits((-3, 4))
-
         for i, ax in enumerate(axes.flatten()):
             if i >= n:
                 ax.set_axis_off()
@@ -511,6 +508,8 @@ class Plotter:
                     ax.xaxis.set_major_locator(LogLocator(numticks=self.config.max_ticks))
                 else:
                     ax.xaxis.set_major_locator(MaxNLocator(self.config.max_ticks, prune="lower"))
+                    formatter = ScalarFormatter(useOffset=False)
+                    formatter.set_powerlimits((-3, 4))
                     ax.xaxis.set_major_formatter(formatter)
             ax.set_xlim(base.extents.get(p) or self._get_parameter_extents(p, base.chains))
 
-- 
2.43.0


From 7283caa070f3812a1c6fec09f90317987427e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:10 +0000
Subject: [PATCH 51/51] fix: hide the values of a blinded colour parameter on
 its colorbar

---
 src/chainconsumer/plotter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chainconsumer/plotter.py b/src/chainconsumer/plotter.py
index d366a7d..9ab29ed 100644
--- a/src/chainconsumer/plotter.py
+++ b/src/chainconsumer/plotter.py
@@ -242,6 +242,8 @@ class Plotter:
                 elif label == "posterior":
                     label = "log(Posterior)"
                 cbar.set_label(label, fontsize=self.config.label_font_size)
+                if self.config.blind is True or column in base.blind:
+                    cbar.set_ticks([])
                 if cbar.solids is not None:
                     cbar.solids.set(alpha=1)
 
-- 
2.43.0

