From adb631427417c5016a15bb2617bfa14654cf8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 01/57] fix: a payload without ForceChannelWlEdge can be built
 and observed

---
 exorad/models/instruments/instrument.py   | 12 +++++++++++-
 exorad/models/instruments/photometer.py   |  2 +-
 exorad/models/instruments/spectrometer.py |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..93d6c27 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -244,6 +244,16 @@ class Instrument(Logger):
         ]
         return u.Quantity(bsig)
 
+    def _force_wl_edge(self):
+        """
+        True if the payload forces the transmission to zero outside the channel range
+        """
+        optics = self.payload["optics"]
+        return bool(
+            "ForceChannelWlEdge" in optics
+            and optics["ForceChannelWlEdge"]["value"]
+        )
+
     def _get_transmission(self, wl_grid, tr_data=None):
         tr_func = interp1d(
             wl_grid,
@@ -263,7 +273,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..57459df 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -138,7 +138,7 @@ class Photometer(Instrument):
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..aabeaf5 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -329,7 +329,7 @@ class Spectrometer(Instrument):
         qe, transmission, wave_window = self._get_efficiency(wl, target)
         if "sky TR" in self.table.keys():
             out["foreground_transmission"] = self.table["sky TR"]
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From 12336550a5639bf00c9f41ece3daede52473c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 02/57] fix: wavelength bounds of an element apply also when
 both transmission and reflectivity are given

---
 exorad/models/optics/opticalElement.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..dc6464c 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -191,20 +191,20 @@ class OpticalElement(Logger):
             )
             # Evaluate the transmission over the wavelength grid
             transmission = tr_func(self.wl)
-        elif "transmission" in self.description and "reflectivity" in self.description:
-            if "use" in self.description:
-                key = self.description["use"]["value"]
-                transmission = np.ones(self.wl.size) * self.description[key]["value"]
-            else:
-                error_msg = (
-                    "Both transmission and reflectivity are included but 'use' is not indicated"
-                )
-                self.error(error_msg)
-                raise KeyError(error_msg)
         elif "transmission" in self.description or "reflectivity" in self.description:
-            try:
+            if "transmission" in self.description and "reflectivity" in self.description:
+                if "use" in self.description:
+                    key = self.description["use"]["value"]
+                    transmission = np.ones(self.wl.size) * self.description[key]["value"]
+                else:
+                    error_msg = (
+                        "Both transmission and reflectivity are included but 'use' is not indicated"
+                    )
+                    self.error(error_msg)
+                    raise KeyError(error_msg)
+            elif "transmission" in self.description:
                 transmission = np.ones(self.wl.size) * self.description["transmission"]["value"]
-            except KeyError:
+            else:
                 transmission = np.ones(self.wl.size) * self.description["reflectivity"]["value"]
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
-- 
2.43.0


From 5aefbb94f62eedbfc24a1e388aace40ac0accd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 03/57] fix: wl_col_name of an optical element is usable

---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From 2ed682bf25e117ad89e5338f37fde552fa1b74af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 04/57] fix: the solid_angle of an optical element is used for
 its signal

---
 exorad/models/optics/opticalPath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..a9f29e3 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -68,6 +68,7 @@ class InstRadiance(Radiance):
 
     position = "path"
     slit = None
+    angle = None
 
 
 class OpticalPath(Logger):
@@ -259,6 +260,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
-- 
2.43.0


From 145681745562e6a2e1f754609b6e03e2f046c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 05/57] fix: a slit disperses foreground light also when no
 element emits before it

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index a9f29e3..2eda66d 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -258,6 +258,8 @@ class OpticalPath(Logger):
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
             out_radiance.angle = el.angle
@@ -275,7 +277,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
             self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From 67db8f12c6c03e0fe01d42679f9f63362b354707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 06/57] fix: a target that cannot be observed is left out of
 the results

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..07ffb3f 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if output is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if output is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 119fc2a3065b09ab12fe6c07e70a1c8b42ccd93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 07/57] fix: foregrounds are estimated anew at each
 observation, and a payload can have none

---
 exorad/tasks/foregroundHandler.py | 11 +++++++++++
 exorad/tasks/targetHandler.py     |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..8293f90 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -122,6 +122,15 @@ class EstimateForeground(Task):
         self.set_output(target)
 
 
+def remove_foregrounds(target):
+    """
+    It removes the foregrounds estimated in a previous observation of the target
+    """
+    for attribute in ["foreground", "skyTransmission"]:
+        if hasattr(target, attribute):
+            delattr(target, attribute)
+
+
 class EstimateForegrounds(Task):
     """
     It estimate the foreground radiance in the target direction for a specific wl range
@@ -155,6 +164,8 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
+        remove_foregrounds(target)
+
         if isinstance(foregrounds, OrderedDict):
             for foreground in foregrounds:
                 if foreground == "zodiacal":
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 07ffb3f..01a4410 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -234,6 +234,7 @@ class ObserveTarget(Task):
             EstimateNoise,
             LoadSource,
         )
+        from .foregroundHandler import remove_foregrounds
 
         prepareTarget = PrepareTarget()
         propagateTargetLight = PropagateTargetLight()
@@ -250,7 +251,11 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(
+                channels=channels, target=target
+            )
+        else:
+            remove_foregrounds(target)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From b80f1190051deb577adab60a8376e645265ed452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 08/57] fix: the foreground transmission of a target is not
 stored in the channel

---
 exorad/models/instruments/instrument.py   | 11 ++++++++---
 exorad/models/instruments/photometer.py   |  4 ++--
 exorad/models/instruments/spectrometer.py |  4 ++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 93d6c27..015d2da 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -372,15 +372,20 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _get_sky_transmission(self, target):
+        """
+        transmission of the target foregrounds binned to the channel table
+        """
+        sky = copy.deepcopy(target.skyTransmission)
+        sky_transmission, _ = self._get_transmission(sky.wl_grid, sky.data)
+        return sky_transmission
+
     def _add_data_to_built(self, name, data):
         self.built_instr[name] = data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 57459df..842b8b8 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,8 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
 
         if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index aabeaf5..cccc34e 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,8 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_sky_transmission(target)
         if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From 767876bd1246e8ada42eea9f72a3f0943ca301e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 09/57] fix: foreground light passes through the foregrounds
 nearer to the telescope

---
 exorad/models/instruments/instrument.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 015d2da..d76fd36 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,18 +191,17 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
-            # for other_el in foregrounds[i+1:]:
-            #     if hasattr(target.foreground[other_el], 'transmission'):
-            #         self.debug('passing through {}'.format(other_el))
-            #         radiance.data *= target.foreground[other_el].transmission
+            # the farther foregrounds, next in the loop, pass through this one
+            frg_transmission = getattr(
+                target.foreground[frg], "transmission", None
+            )
+            if frg_transmission is not None:
+                transmission.data *= frg_transmission
+                self.debug("added {} transmission".format(frg))
+
             if "slit_width" in self.built_instr:
                 max_signal_per_pix, signal = convolve_with_slit(
                     self.description,
-- 
2.43.0


From 0a6776609ca9b884d9412c07098e46ae46e4a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 10/57] fix: stacking tables leaves the stacked tables
 unchanged

---
 exorad/utils/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..c71ec0a 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -79,21 +79,30 @@ def to_dict(obj, classkey=None):
 def vstack_tables(table_list):
     table = False
     for tab in table_list:
+        tab = tab.copy()
         if not table:
             table = tab
         else:
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
             if col_name1:
                 for c in col_name1:
-                    tab[c] = np.zeros(len(tab)) * table[c][0]
+                    tab[c] = zeros_column(len(tab), table[c])
             col_name2 = [col for col in tab.keys() if col not in table.keys()]
             if col_name2:
                 for c in col_name2:
-                    table[c] = np.zeros(len(table)) * tab[c][0]
+                    table[c] = zeros_column(len(table), tab[c])
             table = vstack([table, tab], join_type="outer")
     return table
 
 
+def zeros_column(size, column):
+    """
+    Column of zeros with the same units of the given column
+    """
+    unit = getattr(column, "unit", None)
+    return np.zeros(size) if unit is None else np.zeros(size) * unit
+
+
 def parse_range(inp, avail_values):
     if inp.strip() == "all":
         return [x for x in range(avail_values)]
-- 
2.43.0


From 0fcbd79d8811e28b9a2658964dcbe56bd52622b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 11/57] fix: rebinning keeps the samples around the new grid
 and its size

Samples beyond the new grid were dropped before interpolating, so a coarsely
sampled signal was zero between its last sample and the grid's ends; a NaN in
the new grid dropped all samples, NaN or repeated points shortened the result
and unsorted samples were averaged instead of interpolated.
---
 exorad/utils/exolib.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..38ac9d8 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,9 +41,12 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
+    # work on increasing grids, the requested one without NaNs and duplicates
+    new_x = x
+    x = np.unique(new_x[~np.isnan(new_x)])
+    order = np.argsort(xp, kind="stable")
+    xp = xp[order]
+    fp = fp[order]
 
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
@@ -57,24 +60,20 @@ def rebin(x, xp, fp):
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    id = np.where(np.isnan(x))[0]
-    if id.size > 0:
-        logger.debug("Nans found in new x array: removing it")
-        x = np.delete(x, id)
-
     # remove duplicates
-    while np.diff(xp).min() == 0:
+    while xp.size > 1 and np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
         id = np.argmin(np.diff(xp))
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    while np.diff(x).min() == 0:
-        logger.debug("duplicate found in new x array: removing it")
-        id = np.argmin(np.diff(x))
-        x = np.delete(x, id)
-
-    if np.diff(xp).max() < np.diff(x).min():
+    # compare the samples around the new grid with it
+    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
+    if (
+        idx.size > 1
+        and x.size > 1
+        and np.diff(xp[idx]).max() < np.diff(x).min()
+    ):
         # Binning!
         logger.debug("binning")
         bin_x = 0.5 * (x[1:] + x[:-1])
@@ -112,7 +111,12 @@ def rebin(x, xp, fp):
             logger.debug("output units force to inputs fp")
             new_f *= funits
 
-    return x, new_f
+    # values at the requested points, zero where they are NaN
+    out = np.zeros(new_x.shape) * new_f.unit
+    valid = np.where(~np.isnan(new_x))[0]
+    out[valid] = new_f[np.searchsorted(x, new_x[valid])]
+
+    return new_x, out
 
 
 def rebin_(x, xp, fp):
-- 
2.43.0


From ad5107dfab925070a12234bc617a5c763fb2fd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 12/57] fix: the zodiacal factor is used when the zodiacal map
 cannot be read

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 150d0cd50557c919927911184278b22bbe3757c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 13/57] fix: repeating the noise estimation does not count its
 own results

---
 exorad/models/noise.py        | 17 +++++++++++++++--
 exorad/tasks/targetHandler.py |  4 +++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..c64d256 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -105,6 +105,19 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def signal_keys(table):
+    """
+    Returns the columns of the target table that hold a signal collected by the detector:
+    the instrument (or its optical elements) and foreground signals and the star signal in the aperture
+    """
+    return [
+        key
+        for key in table.keys()
+        if key.endswith(("_signal", " signal"))
+        or key == "star_signal_inAperture"
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -127,7 +140,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_keys(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -161,7 +174,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = signal_keys(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 01a4410..fee9d71 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,9 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From abb0cc9be26e86b7f0a6e956e1213275397a74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 14/57] fix: the number of reads does not depend on the units
 of the reading frequency

---
 exorad/models/noise.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index c64d256..ccfe25c 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,7 +69,11 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        u.Quantity(
+            t_frame * channel["detector"]["freqNDR"]["value"]
+        ).to_value(u.dimensionless_unscaled)
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
-- 
2.43.0


From c34e97949eee718d07eaae1727f281627534afdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 15/57] fix: custom noises from data files are added to the
 total noise

---
 exorad/models/noise.py | 77 ++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 44 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index ccfe25c..8644bbf 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -189,55 +189,44 @@ def photon_noise_variance(table, out):
 
 
 def add_custom_noise(custom, wl, out):
-    if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
+    """
+    Adds the custom noises to the output table and, in quadrature, to the total noise
+
+    Parameters
+    -----------
+    custom: dict
+        custom noise description, or an OrderedDict of them if they are more than one
+    wl: array
+        wavelengths of the output table
+    out: QTable
+        output table
 
+    Returns
+    -------
+    QTable
+        output table populated
+    """
     if isinstance(custom, OrderedDict):
         for contrib in custom:
-            custom_noise = (
-                custom[contrib]["value"]
-                * 1e-6
-                * np.ones(wl.size)
-                * u.hr**0.5
-            )
-            out[
-                "{}_noise".format(custom[contrib]["name"]["value"])
-            ] = custom_noise
-            logger.debug(
-                "{} added as custom noise :{}".format(
-                    custom[contrib]["name"]["value"], custom_noise
-                )
-            )
-            out["total_noise"] = np.sqrt(
-                out["total_noise"] * out["total_noise"]
-                + custom_noise * custom_noise
-            )
+            out = add_custom_noise(custom[contrib], wl, out)
+        return out
+
+    if "data" in custom:
+        col_name = [
+            col for col in custom["data"].keys() if "Wavelength" not in col
+        ][0]
+        data = Noise(custom["data"]["Wavelength"], custom["data"][col_name])
+        data.spectral_rebin(wl)
+        name, custom_noise = col_name, data.data
     else:
+        name = custom["name"]["value"]
         custom_noise = custom["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
-        out["{}_noise".format(custom["name"]["value"])] = custom_noise
-        logger.debug(
-            "{} added as custom noise :{}".format(
-                custom["name"]["value"], custom_noise
-            )
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise * custom_noise
-        )
+
+    out["{}_noise".format(name)] = custom_noise
+    logger.debug("{} added as custom noise :{}".format(name, custom_noise))
+    out["total_noise"] = np.sqrt(
+        out["total_noise"] * out["total_noise"] + custom_noise * custom_noise
+    )
     return out
 
 
-- 
2.43.0


From 2ee76f1422c715c135f879880a955aa9be5899f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 16/57] fix: repeated and empty tags of a payload description
 are kept

---
 exorad/tasks/loadOptions.py | 15 ++++++---------
 exorad/utils/util.py        | 11 +++++++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..c255f20 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -8,8 +8,9 @@ from astropy.io.ascii.core import InconsistentTableError
 
 from .task import Task
 from exorad.utils.passVal import PassVal
+from exorad.utils.util import unique_key
 
-compactString = lambda string: string.replace("\n", "").strip()
+compactString = lambda string: (string or "").replace("\n", "").strip()
 
 
 class LoadOptions(Task):
@@ -115,14 +116,10 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr.get("value", ""), attr)])
+                    root_dict[ch.tag] = attr
+                attr[unique_key(attr, value)] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index c71ec0a..95b79ea 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -134,3 +134,14 @@ def parse_range(inp, avail_values):
 def chunks(l, n):
     for i in range(0, len(l), n):
         yield l[i : i + n]
+
+
+def unique_key(dictionary, value):
+    """
+    Returns a key to add the value to the dictionary without replacing the keys already there
+    """
+    key, i = value, 2
+    while key in dictionary:
+        key = "{}_{}".format(value, i)
+        i += 1
+    return key
-- 
2.43.0


From 9c0b4f5eca1ec0644eab14e751c3235de2fbffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:18 +0000
Subject: [PATCH 17/57] fix: the configuration path does not depend on the
 files parsed before

---
 exorad/tasks/loadOptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index c255f20..3e79a32 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -47,6 +47,7 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        self.configPath = self._config_path
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
-- 
2.43.0


From 447f50be5bb0a2b163e9fed3b409f6edb682a173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 18/57] fix: the working resolution is that of the payload in
 use

---
 exorad/models/instruments/instrument.py |  1 +
 exorad/tasks/targetHandler.py           |  2 ++
 exorad/utils/passVal.py                 | 11 ++++++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index d76fd36..0de6db2 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -95,6 +95,7 @@ class Instrument(Logger):
             # you cannot load the description and run it again because it's not an ordered dictionary anymore
             raise ValueError("You cannot build a loaded instrument")
         else:
+            PassVal.set_from_payload(self.payload)
             self.builder()
             self.build_optical_path()
 
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index fee9d71..446c473 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.utils.passVal import PassVal
 
 
 class LoadTargetList(Task):
@@ -227,6 +228,7 @@ class ObserveTarget(Task):
         payload = self.get_task_param("payload")
         channels = self.get_task_param("channels")
         wl_min, wl_max = self.get_task_param("wl_range")
+        PassVal.set_from_payload(payload)
 
         from . import (
             PrepareTarget,
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..eb6ebe6 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,16 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    _working_R = default_working_R = 6000
+
+    def set_from_payload(self, payload):
+        """
+        Sets the values to use with the payload, that may not be the last one parsed
+        """
+        try:
+            self.working_R = payload["common"]["working_R"]["value"]
+        except (KeyError, TypeError):
+            self.working_R = self.default_working_R
 
     @property
     def working_R(self):
-- 
2.43.0


From a651cd9b82f6ad709686e7d3cd45bb6205ed7459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 19/57] fix: numbers with a decimal comma in a target list are
 read as numbers

---
 exorad/models/targetlist.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..bda8bd6 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -271,15 +271,13 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[star_k])):
             val = list(self.tmpTab[star_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and (
+                    "," in val[n] or units[n] is not None
+                ):  # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -320,15 +318,13 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[planet_k])):
             val = list(self.tmpTab[planet_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and (
+                    "," in val[n] or units[n] is not None
+                ):  # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From 4c4481624d36e0dbe9504e49b227c15aa8d4b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 20/57] fix: a planet column without units is rejected like a
 star column

---
 exorad/models/targetlist.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index bda8bd6..048d396 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -46,11 +46,9 @@ class BaseTargetList(Logger):
         # quit()
         planet_data = None
         planet_keys = None
-        try:
+        if hasattr(self, "planet_keys"):
             planet_keys = self.planet_keys()
             planet_data = self.planet_data()
-        except:
-            pass
 
         target_list = []
         if planet_data:
-- 
2.43.0


From e7f6d204b149d5ab66fa40717667cbb1f2899362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:56 +0000
Subject: [PATCH 21/57] fix: a target with blank coordinates has no coordinates

---
 exorad/tasks/foregroundHandler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 8293f90..33c3f63 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -48,14 +48,15 @@ class EstimateZodi(Task):
             * u.um
         )
 
-        if "ra" in target.star.__dict__.keys():
+        coordinates = [
+            getattr(target.star, coordinate, None)
+            for coordinate in ("ra", "dec")
+        ]
+        if all(hasattr(coordinate, "unit") for coordinate in coordinates):
             zodi = ZodiacalFrg(
                 wl=wl,
                 description=zodi_dict,
-                coordinates=(
-                    target.star.__dict__["ra"],
-                    target.star.__dict__["dec"],
-                ),
+                coordinates=tuple(coordinates),
             )
         else:
             zodi = ZodiacalFrg(wl=wl, description=zodi_dict)
-- 
2.43.0


From 5f3a07f54922a79c7a89cfc93db6d2c107644da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 22/57] fix: targets with blank optional cells are observed and
 written

---
 exorad/tasks/loadSource.py | 21 +++++++++++++--------
 exorad/utils/util.py       |  1 +
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..83df27b 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -183,14 +183,19 @@ class LoadSource(Task):
         metadata = {}
 
         metadata["starName"] = star.name
-        metadata["starM"] = star.M
-        metadata["starTeff"] = star.Teff
-        metadata["starR"] = star.R
-        metadata["starDistance"] = star.D
-        metadata["starL"] = star.luminosity
-        metadata["starModel"] = star.model
-        if hasattr(star, "magk"):
-            metadata["starMagK"] = star.magk
+        for key, attr in [
+            ("starM", "M"),
+            ("starTeff", "Teff"),
+            ("starR", "R"),
+            ("starDistance", "D"),
+            ("starL", "luminosity"),
+            ("starModel", "model"),
+            ("starMagK", "magk"),
+        ]:
+            # some information may be missing in the target list
+            value = getattr(star, attr, None)
+            if value is not None and not np.ma.is_masked(value):
+                metadata[key] = value
 
         table.meta.update(metadata)
         return table
diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 95b79ea..a5101ca 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -66,6 +66,7 @@ def to_dict(obj, classkey=None):
             key: to_dict(value, classkey)
             for key, value in obj.__dict__.items()
             if not callable(value)
+            and value is not np.ma.masked
             and not key.startswith("_")
             and key not in ["name"]
         }
-- 
2.43.0


From 2f892678cc19323678116b17f4e920d266028868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 23/57] fix: tables read back keep their metadata and may have
 dots in their names

---
 exorad/output/hdf5/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..b9e372b 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -39,7 +39,9 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        table_keys = (
+            elem[: -len(".__table_column_meta__")] for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
@@ -85,11 +87,9 @@ def load_table(input_table, k):
             if attr in header_cols[col.name]:
                 setattr(col, attr, header_cols[col.name][attr])
     table = serialize._construct_mixins_from_columns(table)
-    try:
-        header["meta"].pop("__serialized_columns__")
+    if "meta" in header:
+        header["meta"].pop("__serialized_columns__", None)
         table.meta = header["meta"]
-    except KeyError:
-        pass
     return table
 
 
-- 
2.43.0


From dfab4cea9f6ca3196816948f6ad294ad83515cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 24/57] fix: a quantity stored as value keeps its unit

---
 exorad/output/hdf5/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index b9e372b..25a4444 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -112,6 +112,9 @@ def recursively_save_dict_contents_to_output(output, dic):
             store_thing(output, key, item)
         except TypeError:
             raise ValueError("Cannot write %s type" % type(item))
+    if isinstance(dic.get("value"), u.Quantity) and "unit" not in dic:
+        # "value" is stored as a bare number: its unit goes beside it
+        output.write_string("unit", str(dic["value"].unit))
     return
 
 
-- 
2.43.0


From 4190346157c1125a68566e9296701ca807ae1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 25/57] fix: every kind of numpy number can be stored

---
 exorad/output/hdf5/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 25a4444..4d1fb0b 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -126,9 +126,8 @@ def store_thing(output, key, item):
         (
             float,
             int,
-            np.int64,
-            np.int32,
-            np.float64,
+            np.number,
+            np.bool_,
         ),
     ):
         output.write_scalar(key, item)
-- 
2.43.0


From 9f01dd44efe6854047ef6c9f8c20d0ff492978f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 26/57] fix: stored text is read back as text

---
 exorad/output/hdf5/util.py        | 2 ++
 exorad/tasks/instrumentHandler.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 4d1fb0b..5a15350 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -69,6 +69,8 @@ def hdf5_group_to_dict(h5_group):
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..6370f08 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -188,7 +188,7 @@ class LoadPayload(Task):
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
-- 
2.43.0


From e3ca1a15362db05dcb252d11d7603e60af4929ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 27/57] fix: channels loaded from an output file can observe

---
 exorad/models/instruments/instrument.py   | 12 ++++++++----
 exorad/output/hdf5/hdf5.py                |  2 ++
 exorad/output/hdf5/util.py                |  4 ++++
 exorad/utils/diffuse_light_propagation.py | 12 ++++++++----
 exorad/utils/plotter.py                   |  6 ++++--
 5 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 0de6db2..0704719 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -357,15 +357,19 @@ class Instrument(Logger):
         #                         self.built_instr['transmission_data']['data'], left=0.0, right=0.0)
         # wave_window = np.ones(self.table['Wavelength'])
         qe = Signal(
-            self.built_instr["qe_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["qe_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["qe_data"]["wl_grid"]["value"],
+                self.built_instr["qe_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["qe_data"]["data"]["value"],
         )
         qe.spectral_rebin(wl)
 
         transmission = Signal(
-            self.built_instr["transmission_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["transmission_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["transmission_data"]["wl_grid"]["value"],
+                self.built_instr["transmission_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["transmission_data"]["data"]["value"],
         )
         transmission.spectral_rebin(wl)
diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..a2ab56b 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -144,6 +144,8 @@ class HDF5OutputGroup(OutputGroup):
             )
         else:
             qg_c = self._entry.create_group(str(quantity_name))
+            # it is loaded as a quantity and not as a dictionary
+            qg_c.attrs["quantity"] = True
             qg_c.create_dataset(
                 "value",
                 data=quantity.value,
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 5a15350..781244a 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -74,6 +74,10 @@ def hdf5_group_to_dict(h5_group):
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
+            if item.attrs.get("quantity"):
+                result[key] = u.Quantity(
+                    result[key]["value"], result[key]["unit"]
+                )
     return result
 
 
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index fd6cda0..30f11e6 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -28,15 +28,19 @@ def prepare(ch_table, ch_built_instr, description):
         * description["detector"]["delta_pix"]["value"]
     ).to(u.m**2)
     qe = Signal(
-        ch_built_instr["qe_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["qe_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["qe_data"]["wl_grid"]["value"],
+            ch_built_instr["qe_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["qe_data"]["data"]["value"],
     )
     logger.debug("wl qe : {}".format(qe.wl_grid))
 
     transmission = Signal(
-        ch_built_instr["transmission_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["transmission_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["transmission_data"]["wl_grid"]["value"],
+            ch_built_instr["transmission_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["transmission_data"]["data"]["value"],
     )
 
diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..8e13b5d 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -126,8 +126,10 @@ class Plotter(Logger):
                             "{}_data".format(key)
                         ]
                         sig = Signal(
-                            wl_grid=data["wl_grid"]["value"]
-                            * u.Unit(data["wl_grid"]["unit"]),
+                            wl_grid=u.Quantity(
+                                data["wl_grid"]["value"],
+                                data["wl_grid"]["unit"],
+                            ),
                             data=data["data"]["value"],
                         )
                         ax.plot(
-- 
2.43.0


From 9680f127d395374907a8ae215974f0367db5a730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 28/57] fix: stored dictionaries keep their order and ordered
 ones stay such

---
 exorad/output/hdf5/hdf5.py | 12 ++++++++++--
 exorad/output/hdf5/util.py |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index a2ab56b..7d209c6 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -121,11 +121,17 @@ class HDF5OutputGroup(OutputGroup):
         entry = None
         if self._entry:
             try:
-                entry = self._entry.create_group(str(group_name))
+                entry = self._entry.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self._entry[str(group_name)]
         return HDF5OutputGroup(entry)
 
+    def mark_ordered(self):
+        """the group holds an OrderedDict: it is loaded as such"""
+        self._entry.attrs["ordered"] = True
+
     def write_string_array(self, string_name, string_array, metadata=None):
         asciiList = [n.encode("ascii", "ignore") for n in string_array]
         ds = self._entry.create_dataset(
@@ -234,7 +240,9 @@ class HDF5Output(Output):
         entry = None
         if self.fd:
             try:
-                entry = self.fd.create_group(str(group_name))
+                entry = self.fd.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self.fd[str(group_name)]
         return HDF5OutputGroup(entry)
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 781244a..7539fa0 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 import astropy.units as u
 import h5py
 import numpy as np
@@ -64,7 +66,7 @@ def hdf5_group_to_dict(h5_group):
     dict
         A dictionary representing the HDF5 group structure
     """
-    result = {}
+    result = OrderedDict() if h5_group.attrs.get("ordered") else {}
     for key, item in h5_group.items():
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
@@ -171,6 +173,8 @@ def store_thing(output, key, item):
 
     elif isinstance(item, dict):
         group = output.create_group(key)
+        if isinstance(item, OrderedDict):
+            group.mark_ordered()
         recursively_save_dict_contents_to_output(group, item)
     else:
         raise TypeError
-- 
2.43.0


From ae29bacaa66225b70bd5b655dd0b609a0c84e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 29/57] fix: a loaded dictionary holds the tables only once

---
 exorad/output/hdf5/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 7539fa0..038b1af 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -47,7 +47,10 @@ def recursively_read_dict_contents(input_dict):
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-    for key in new_keys:
+            # the header and the columns stored beside the table are in it
+            del input_dict["{}.__table_column_meta__".format(k)]
+            input_dict.pop("{}_to_group".format(k), None)
+    for key in list(input_dict):
         if isinstance(input_dict[key], dict):
             input_dict[key] = recursively_read_dict_contents(input_dict[key])
     return input_dict
-- 
2.43.0


From 64dc282703e89bb5cf987dfa4012516912e5d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 30/57] fix: output files state the program version

---
 exorad/output/hdf5/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 7d209c6..df69618 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -58,7 +58,7 @@ from exorad import __license__
 from exorad import __pkg_name__
 from exorad import __title__
 from exorad import __url__
-from exorad import __version__
+from exorad.__version__ import __version__
 from exorad.output.hdf5.util import hdf5_group_to_dict
 from exorad.output.hdf5.util import recursively_read_dict_contents
 from exorad.output.output import Output
-- 
2.43.0


From 2199e3854971f4fbbc484a92f68e1b67eadcbc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 31/57] fix: the pipeline never replaces its input files

---
 exorad/exorad.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..06edbab 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -60,23 +60,27 @@ def standard_pipeline(
         addLogFile()
 
     if output is not None:
-        if replace:
-            if os.path.exists(output):
-                os.remove(output)
+        inputs = [f for f in (options, target_list) if isinstance(f, str)]
+        if replace and os.path.exists(output):
+            for f in inputs:
+                if os.path.exists(f) and os.path.samefile(f, output):
+                    logger.error("the output file is an input file")
+                    raise OSError("the output file is an input file")
+            os.remove(output)
 
         out_dir = pathlib.Path(output).parent.absolute()
         if not os.path.exists(out_dir):
             os.makedirs(out_dir)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
-        try:
-            shutil.copy(options, out_dir)
-        except shutil.SameFileError:
-            pass
-        try:
-            shutil.copy(target_list, out_dir)
-        except shutil.SameFileError:
-            pass
+        for f in inputs:
+            # the copy must not take the place of the output file
+            if os.path.basename(f) == os.path.basename(output):
+                continue
+            try:
+                shutil.copy(f, out_dir)
+            except shutil.SameFileError:
+                pass
     else:
         out_dir = None
 
-- 
2.43.0


From c10c076a2f5ea0539a0712c7179abc6cfd87dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 32/57] fix: plotting the efficiency leaves the channels as
 they are

---
 exorad/utils/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 8e13b5d..d808452 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -144,7 +144,7 @@ class Plotter(Logger):
                             pce = sig
                         else:
                             sig.spectral_rebin(pce.wl_grid)
-                            pce.data *= sig.data
+                            pce.data = pce.data * sig.data
                     ax.plot(
                         pce.wl_grid,
                         pce.data,
-- 
2.43.0


From 718fc442ea308630862cdf726b543eafa30ad87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 33/57] fix: the logging level set by the user survives
 observations, and log files are added once

---
 exorad/log/__init__.py        | 34 ++++++++++++++++++++++------------
 exorad/tasks/targetHandler.py | 11 ++++++++---
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index a378fa5..93f0a2e 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -47,42 +47,52 @@ OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 """
 import logging
+import os
 
 from .logger import Logger
 
 last_log = logging.INFO
+# level in use before logging was disabled, None while it is enabled
+enabled_log = None
 
 
 def setLogLevel(level):
-    global last_log
+    global last_log, enabled_log
     from .logger import root_logger
 
     root_logger.handlers[0].setLevel(level)
     #    root_logger.setLevel(level)
     last_log = level
+    enabled_log = None
+
+
+def isLoggingDisabled():
+    return enabled_log is not None
 
 
 def disableLogging():
-    # import logging
-    # from .logger import root_logger
-    # root_logger.setLevel(logging.ERROR)
+    global enabled_log
+    from .logger import root_logger
+
+    if isLoggingDisabled():
+        return
+    level = root_logger.handlers[0].level
     setLogLevel(logging.ERROR)
+    enabled_log = level
 
 
 def enableLogging():
-    # global last_log
-    # import logging
-    # from .logger import root_logger
-    # root_logger.setLevel(logging.INFO)
-    #
-    # # if last_log is None:
-    # #     last_log = logging.INFO
-    setLogLevel(logging.INFO)
+    setLogLevel(enabled_log if isLoggingDisabled() else logging.INFO)
 
 
 def addLogFile(fname="exorad.log"):
     from .logger import root_logger
 
+    # the same file is added once only
+    for handler in root_logger.handlers:
+        if getattr(handler, "baseFilename", None) == os.path.abspath(fname):
+            return
+
     formatter = logging.Formatter(
         "%(asctime)s - %(name)s - %(levelname)s - %(message)s"
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 446c473..0b09644 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.log import isLoggingDisabled
 from exorad.utils.passVal import PassVal
 
 
@@ -289,7 +290,9 @@ def pipeline_to_dict(
     observeTarget = ObserveTarget()
 
     root_logger.info("observing {}".format(target.name))
-    if not debug:
+    # leave the logging as the user set it
+    silence = not debug and not isLoggingDisabled()
+    if silence:
         disableLogging()
     try:
         target = observeTarget(
@@ -298,7 +301,8 @@ def pipeline_to_dict(
             channels=channels,
             wl_range=wl_range,
         )
-        enableLogging()
+        if silence:
+            enableLogging()
         outputDict = deepcopy(target)
 
         if plot:
@@ -315,7 +319,8 @@ def pipeline_to_dict(
             plt.close()
         return target.name, outputDict
     except:
-        enableLogging()
+        if silence and isLoggingDisabled():
+            enableLogging()
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
                 target.name
-- 
2.43.0


From 891d8512493809f0ccccb7c78d5fed925681890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 34/57] fix: target ranges are read as documented, and text
 that is no range plots nothing

---
 exorad/utils/plotter.py | 3 +++
 exorad/utils/util.py    | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index d808452..cd3e328 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -498,6 +498,9 @@ def main():
     targets_to_run_id = parse_range(
         args.target_number, len(targets_dir.keys())
     )
+    if targets_to_run_id is None:
+        logger.error("invalid target number")
+        targets_to_run_id = []
     targets_to_run = [list(targets_dir.keys())[n] for n in targets_to_run_id]
 
     if args.target_name != "None":
diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index a5101ca..fbf46a7 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -117,7 +117,10 @@ def parse_range(inp, avail_values):
         start = None
         end = None
         try:
-            s = a.split("-")
+            # both 0-3 and 0:3 are ranges
+            s = a.replace(":", "-").split("-")
+            if len(s) > 2:
+                raise ValueError
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0


From d0f00b68d14718352a89fa1b9d337d173c2a469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 35/57] fix: signals read the units of table columns and refuse
 mismatched time grids

---
 exorad/models/signal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..a1ddfc6 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -96,6 +96,11 @@ class Signal(Logger):
             if it cannot convert the original units into the desired ones
 
         """
+        unit = getattr(quantity, "unit", None)
+        if unit is not None and not isinstance(quantity, u.Quantity):
+            # the columns of a table carry their units
+            quantity = np.array(quantity) * u.Unit(unit)
+
         if isinstance(quantity, u.Quantity):
             if quantity.unit != units:
                 try:
@@ -146,7 +151,10 @@ class Signal(Logger):
             self.error("dimension mismatch between wavelength grid and data")
             raise ValueError
         if self.time_grid.shape[0] > 1 or self.data.ndim > 1:
-            if self.data.shape[1] - self.time_grid.shape[0] != 0:
+            if (
+                self.data.ndim < 2
+                or self.data.shape[1] - self.time_grid.shape[0] != 0
+            ):
                 self.error("dimension mismatch between time grid and data")
                 raise ValueError
 
-- 
2.43.0


From a7ad9514cfaaf8c7896ce60b5c1fb3440171e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 36/57] fix: a slit of whole pixels keeps all of them, whatever
 the units of its width

---
 exorad/utils/diffuse_light_propagation.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 30f11e6..662e0ee 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -84,12 +84,11 @@ def convolve_with_slit(
     radiance.data *= aomega
     logger.debug("sed : {}".format(radiance.data))
     logger.debug("convolving with slit")
-    slit_kernel = np.ones(
-        int(
-            slit_width
-            / ch_description["detector"]["delta_pix"]["value"].to(u.um)
-        )
-    )
+    slit_pixels = (
+        slit_width / ch_description["detector"]["delta_pix"]["value"].to(u.um)
+    ).to(u.dimensionless_unscaled)
+    # a slit of whole pixels keeps them all, whatever the units it is given in
+    slit_kernel = np.ones(int(np.round(slit_pixels.value, 9)))
     signal_tmp = (
         np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
     ).to(u.count / u.s)
-- 
2.43.0


From acc73fcd77338991aa6c540f2d596206373ca1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 37/57] fix: a channel of a single bin with tabulated resolving
 power can be built

---
 exorad/models/instruments/spectrometer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index cccc34e..be19671 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -80,7 +80,8 @@ class Spectrometer(Instrument):
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
+                wl_bin.size > 2
+                and self.description["wl_max"]["value"].value - wl_bin[-2]
                 < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
                 wl_bin[-2] = self.description["wl_max"]["value"].value
-- 
2.43.0


From a4bdb25567d6a9ed778f289abfb6c26a533d3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 38/57] fix: no superfluous spectral bin when the last one ends
 at wl_max

---
 exorad/models/instruments/spectrometer.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index be19671..da5e013 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -48,14 +48,19 @@ class Spectrometer(Instrument):
                 )
             # fixed R
             else:
+                # rounded: no bin is added when the last one ends at wl_max
                 number_of_spectral_bins = (
                     np.ceil(
-                        np.log(
-                            self.description["wl_max"]["value"]
-                            / self.description["wl_min"]["value"]
-                        )
-                        / np.log(
-                            1.0 + 1.0 / self.description["targetR"]["value"]
+                        np.round(
+                            np.log(
+                                self.description["wl_max"]["value"]
+                                / self.description["wl_min"]["value"]
+                            )
+                            / np.log(
+                                1.0
+                                + 1.0 / self.description["targetR"]["value"]
+                            ),
+                            9,
                         )
                     )
                     + 1
-- 
2.43.0


From 4b09c917457d838210bd7409d2d47a0772c12311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 39/57] fix: apertures of small or nearly all the encircled
 energy are found

---
 exorad/utils/exolib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 38ac9d8..767cc51 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -501,14 +501,15 @@ def find_aperture_radius(ima, eec, Fnum_x, Fnum_y, wavelength):
     float
     """
     last_enc, i = 0, 0
-    rs, enc = [], []
-    while last_enc < (eec + 0.02):
+    rs, enc = [0], [0.0]
+    # no need to go on when the aperture contains the whole image
+    while last_enc < min(eec + 0.02, 1.0 - 1e-9):
         i += 1
         rs += [i]
         enc += [encircled_energy(i, ima, Fnum_x, Fnum_y, wavelength)]
         last_enc = enc[-1]
     inter = interp1d(enc, rs)
-    r = inter(eec)
+    r = inter(min(eec, last_enc))
     return r
 
 
-- 
2.43.0


From 20b23b6c629468af251d2caff366b6415b3add66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 40/57] fix: channel ranges, wavelength solutions and pixels
 may use any unit of length

---
 exorad/models/instruments/photometer.py   | 12 +++-----
 exorad/models/instruments/spectrometer.py | 36 ++++++++++++++++-------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 842b8b8..d2697ed 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -16,14 +16,10 @@ class Photometer(Instrument):
     """
 
     def _wavelength_table(self):
-        wl_c = 0.5 * (
-            self.description["wl_min"]["value"]
-            + self.description["wl_max"]["value"]
-        )
-        bandwidth = (
-            self.description["wl_max"]["value"]
-            - self.description["wl_min"]["value"]
-        )
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+        wl_c = 0.5 * (wl_min + wl_max)
+        bandwidth = wl_max - wl_min
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index da5e013..dbc75e2 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -65,7 +65,7 @@ class Spectrometer(Instrument):
                     )
                     + 1
                 )
-                wl_bin = self.description["wl_min"]["value"] * (
+                wl_bin = self.description["wl_min"]["value"].to(u.um) * (
                     1.0 + 1.0 / self.description["targetR"]["value"]
                 ) ** np.arange(number_of_spectral_bins)
                 wl_bin_c = 0.5 * (wl_bin[0:-1] + wl_bin[1:])
@@ -76,20 +76,20 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = self.description["wl_min"]["value"].to(u.um).value
+            wl_max = self.description["wl_max"]["value"].to(u.um).value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
                 wl_bin.size > 2
-                and self.description["wl_max"]["value"].value - wl_bin[-2]
-                < (wl_bin[-2] - wl_bin[-3]) / 2.0
+                and wl_max - wl_bin[-2] < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -146,11 +146,19 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(
+                    wl_solution_data.wl_grid.unit
+                )
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
@@ -183,7 +191,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
@@ -246,7 +254,8 @@ class Spectrometer(Instrument):
 
         # window sizes
         pixel_window_edge = (
-            wl_sol_func_reverse(wl_bin) * wl_solution_data.data.unit
+            wl_sol_func_reverse(u.Quantity(wl_bin, u.um))
+            * wl_solution_data.data.unit
         )
         window_spectral_width = (
             np.abs(pixel_window_edge[1:] - pixel_window_edge[0:-1]) / delta
@@ -256,9 +265,14 @@ class Spectrometer(Instrument):
             # if encircled energy radii are provided, load from file
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
-            EncE_sol = interp1d(
+            EncE_data = CustomSignal(
                 self.description["EncESolution"]["data"]["Wavelength"],
                 self.description["EncESolution"]["data"]["EE"],
+                "",
+            )
+            EncE_sol = interp1d(
+                EncE_data.wl_grid,
+                EncE_data.data,
                 assume_sorted=False,
                 fill_value="extrapolate",
             )
-- 
2.43.0


From 53d985491ff064858f4f6dc6bb34a1d9d0f7f19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 41/57] fix: a spectral bin without a pixel centre can be
 observed

---
 exorad/models/instruments/spectrometer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index dbc75e2..9a9e36b 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -434,6 +434,11 @@ class Spectrometer(Instrument):
                     star_signal_inPixel.wl_grid < wlu,
                 )
             )[0]
+            if idx.size == 0:
+                # the pixel sampling a bin narrower than the pixels
+                idx = np.argmin(
+                    np.abs(star_signal_inPixel.wl_grid - 0.5 * (wld + wlu))
+                )
             starSignal_inPixel_max[k] = np.max(star_signal_inPixel.data[idx])
         out["star_MaxSignal_inPixel"] = starSignal_inPixel_max
         self.debug(
-- 
2.43.0


From ec6baac485d0ee193f91ce732c6dcad2dae6f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 42/57] fix: the wavelength range of a source may use any unit
 of length

---
 exorad/tasks/loadSource.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 83df27b..feb5f74 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -64,11 +64,11 @@ class LoadSource(Task):
 
         wl_grid = (
             np.logspace(
-                np.log10(wl_min.value),
-                np.log10(wl_max.value),
+                np.log10(wl_min.to(u.um).value),
+                np.log10(wl_max.to(u.um).value),
                 PassVal.working_R,
             )
-            * wl_max.unit
+            * u.um
         )
 
         if source["value"].lower() == "custom":
-- 
2.43.0


From a6df61c2a14ff64901a922c780eac40ae2917e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 43/57] fix: stellar models of positive metallicity are
 selected

---
 exorad/models/source.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..6de8de5 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -1,5 +1,6 @@
 import glob
 import os
+import re
 import warnings
 
 import numpy as np
@@ -113,15 +114,17 @@ class Star(Logger):
         sed_name = self.__get_sed_list(path)
         sed_name_cleaned = [os.path.basename(k) for k in sed_name]
 
-        sed_T_list = np.array(
-            [float(name.split("-")[0][3:]) for name in sed_name_cleaned]
-        )
-        sed_Logg_list = np.array(
-            [float(name.split("-")[1]) for name in sed_name_cleaned]
-        )
-        sed_Z_list = np.array(
-            [float(name.split("-")[2][:3]) for name in sed_name_cleaned]
-        )
+        # the metallicity follows the gravity with its sign
+        grid = []
+        for name in sed_name_cleaned:
+            match = re.match(
+                r"lte(\d+\.?\d*)-(\d+\.?\d*)([+-]\d+\.?\d*)", name
+            )
+            if match is None:
+                self.error("unexpected stellar SED file name: " + name)
+                raise ValueError
+            grid.append(match.groups())
+        sed_T_list, sed_Logg_list, sed_Z_list = np.array(grid, dtype=float).T
 
         temp_to_find = star_temperature.value / 100
         # if 'HiRes' not in sed_name_cleaned[0]:
-- 
2.43.0


From 00c43c7e99bf1252943985b596457ea07137694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 44/57] fix: data files of optical elements may use any unit of
 length

---
 exorad/models/optics/opticalElement.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dc6464c..d652f67 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -137,6 +137,28 @@ class OpticalElement(Logger):
         else:
             return None
 
+    def _get_data_wl(self, colname):
+        """
+        Wavelengths of the data file in the units of the wavelength grid.
+
+        Parameters
+        ----------
+        colname : str
+            Name of the wavelength column.
+
+        Returns
+        -------
+        wl : `numpy.ndarray`
+            Wavelength values. A column without units is assumed to be in the
+            units of the wavelength grid.
+        """
+        wl = self.description["data"][colname]
+        unit = getattr(wl, "unit", None)
+        grid_unit = getattr(self.wl, "unit", None)
+        if unit is None or grid_unit is None:
+            return np.asarray(wl)
+        return (np.asarray(wl) * u.Unit(unit)).to(grid_unit).value
+
     def _get_transmission(self):
         """
         Calculate the transmission of the optical element over the wavelength grid.
@@ -183,7 +205,7 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                self._get_data_wl(wl_colname),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -268,7 +290,7 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                self._get_data_wl(wl_colname),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
-- 
2.43.0


From 02773a05ad020f1f69b8459631ee6d2dfb7cbca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 45/57] fix: the range of a detector may use any unit of length

---
 exorad/models/instruments/instrument.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 0704719..740c6ec 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -109,10 +109,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
-- 
2.43.0


From d9424748f981ece126dfee49fe486eb089ec8141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 46/57] fix: a spectral bin without a pixel centre can be built
 behind a slit

---
 exorad/utils/diffuse_light_propagation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 662e0ee..51d904c 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -107,6 +107,12 @@ def convolve_with_slit(
         )
     ]
     logger.debug("signal: {}".format(signal))
+    for k, centre in enumerate(
+        0.5 * (ch_table["LeftBinEdge"] + ch_table["RightBinEdge"])
+    ):
+        if not idx[k].any():
+            # the pixel sampling a bin narrower than the pixels
+            idx[k] = [np.argmin(np.abs(wl_pix - centre))]
     try:
         max_signal_per_pix = [
             signal_tmp[idx[k]].max() for k in range(len(idx))
-- 
2.43.0


From a404e8a541c632e9b883962bfd18c1b819ebdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:37 +0000
Subject: [PATCH 47/57] fix: pixels on the border of a bin are counted the same
 whatever the rounding

---
 exorad/models/instruments/spectrometer.py | 6 ++++--
 exorad/utils/diffuse_light_propagation.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 9a9e36b..7b792ee 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -425,13 +425,15 @@ class Spectrometer(Instrument):
             np.empty(self.table["Wavelength"].size, dtype=float)
             * star_signal_inPixel.data.unit
         )
+        # a pixel on the border of a bin is in it, whatever the rounding
+        border = 1e-9 * u.um
         for k, (wld, wlu) in enumerate(
             zip(self.table["LeftBinEdge"], self.table["RightBinEdge"])
         ):
             idx = np.where(
                 np.logical_and(
-                    star_signal_inPixel.wl_grid > wld,
-                    star_signal_inPixel.wl_grid < wlu,
+                    star_signal_inPixel.wl_grid > wld - border,
+                    star_signal_inPixel.wl_grid < wlu + border,
                 )
             )[0]
             if idx.size == 0:
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index 51d904c..74a300a 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -93,8 +93,10 @@ def convolve_with_slit(
         np.convolve(radiance.data * dwl_pic, slit_kernel, "same")
     ).to(u.count / u.s)
     logger.debug("signal_tmp: {}".format(signal_tmp))
+    # a pixel on a border is in the bin below it, whatever the rounding
+    border = 1e-9 * u.um
     idx = [
-        np.logical_and(wl_pix > wlow, wl_pix <= whigh)
+        np.logical_and(wl_pix > wlow + border, wl_pix <= whigh + border)
         for wlow, whigh in zip(
             ch_table["LeftBinEdge"], ch_table["RightBinEdge"]
         )
-- 
2.43.0


From 95099aa5fdbee53ab55b392b5df8740050d347ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 48/57] fix: optical elements of the same name all count

---
 exorad/models/optics/opticalPath.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 2eda66d..66f6b8c 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -15,6 +15,7 @@ from exorad.utils.diffuse_light_propagation import integrate_light
 from exorad.utils.diffuse_light_propagation import prepare
 from exorad.utils.exolib import planck
 from exorad.utils.passVal import PassVal
+from exorad.utils.util import unique_key
 
 
 def surface_radiance(wl, T, emissivity):
@@ -213,9 +214,11 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        # all of them are kept, also when their names are the same
+        elements = OrderedDict(optical_element_dict)
+        for el in self.optical_element_dict:
+            elements[unique_key(elements, el)] = self.optical_element_dict[el]
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
@@ -278,8 +281,8 @@ class OpticalPath(Logger):
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
             # Store the radiance data
-            self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
-            self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
+            self.radiance_dict[k] = copy.deepcopy(out_radiance)
+            self.radiance_table[k] = copy.deepcopy(out_radiance.data)
             self.debug(f"Final radiance: {out_radiance.data}")
         return self.radiance_dict
 
-- 
2.43.0


From edf803fded33fead8e04f57e7973a98ff25ca264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 49/57] fix: foregrounds of the same name all count

---
 exorad/tasks/foregroundHandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 33c3f63..f14aab2 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -7,6 +7,7 @@ from .task import Task
 from exorad.models.foregrounds.skyForegrounds import SkyForeground
 from exorad.models.foregrounds.zodiacalForeground import ZodiacalFrg
 from exorad.utils.passVal import PassVal
+from exorad.utils.util import unique_key
 
 
 class EstimateZodi(Task):
@@ -109,7 +110,9 @@ class EstimateForeground(Task):
         foreground = SkyForeground(wl, foreground_dict)
         if not hasattr(target, "foreground"):
             setattr(target, "foreground", OrderedDict())
-        target.foreground[foreground_name] = foreground.skyFilter
+        target.foreground[
+            unique_key(target.foreground, foreground_name)
+        ] = foreground.skyFilter
         if not hasattr(target, "skyTransmission"):
             from exorad.models.signal import Signal
 
-- 
2.43.0


From fb0cbc439b4b9ab3051fa8ce0f9b8bf6f04da7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:39 +0000
Subject: [PATCH 50/57] fix: a folder of PSFs is found without a trailing slash

---
 exorad/utils/exolib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 767cc51..f1e03aa 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -226,7 +226,7 @@ def binnedPSF(
                     F_x, F_y, wl, delta_pix, hdr
                 )
         elif os.path.isdir(filename):
-            filenames = np.sort(glob.glob(filename + "*.fits"))
+            filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
             psf_wl = []
             for file in filenames:
                 with fits.open(os.path.expanduser(file)) as hdu:
@@ -292,7 +292,7 @@ def pixel_based_psf(wl, delta_pix, filename):
             extent = load_pixel_psf_size(delta_pix, hdr)
 
     elif os.path.isdir(filename):
-        filenames = np.sort(glob.glob(filename + "*.fits"))
+        filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
         psf_wl = []
         for file in filenames:
             with fits.open(os.path.expanduser(file)) as hdu:
@@ -457,7 +457,7 @@ def plot_imac(imac, extent, xlim=None, ylim=None):
 
 
 def wl_encircled_energy(filename, eec, format, Fnum_x, Fnum_y, delta_pix):
-    filenames = np.sort(glob.glob(filename + "*.fits"))
+    filenames = np.sort(glob.glob(os.path.join(filename, "*.fits")))
     psf_wl, enc = [], []
     for file in filenames:
         with fits.open(os.path.expanduser(file)) as hdu:
-- 
2.43.0


From ca788b7582535b7aea40b623dd26f674ac75f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:06 +0000
Subject: [PATCH 51/57] fix: targets are not lost when there is nowhere to save
 their plots

---
 exorad/tasks/targetHandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 0b09644..61afe2e 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -305,7 +305,9 @@ def pipeline_to_dict(
             enableLogging()
         outputDict = deepcopy(target)
 
-        if plot:
+        if plot and out_dir is None:
+            root_logger.warning("no output directory: plot not saved")
+        elif plot:
             import matplotlib.pyplot as plt
             import matplotlib
             from exorad.utils.plotter import Plotter
-- 
2.43.0


From 1e4e7d3f2c074fcd8faee602bea89738560ed45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 52/57] fix: a former output is not lost for inputs that are
 not there

---
 exorad/exorad.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 06edbab..7c0bc5c 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -61,6 +61,11 @@ def standard_pipeline(
 
     if output is not None:
         inputs = [f for f in (options, target_list) if isinstance(f, str)]
+        # a former output is not lost for inputs that are not there
+        for f in inputs:
+            if not os.path.exists(f):
+                logger.error("{} not found".format(f))
+                raise FileNotFoundError(f)
         if replace and os.path.exists(output):
             for f in inputs:
                 if os.path.exists(f) and os.path.samefile(f, output):
-- 
2.43.0


From 65f8796cedd82c0a7a5e15df9203acb9e121e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 53/57] fix: channels of a class are found in a payload with
 one channel

---
 exorad/tasks/instrumentHandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6370f08..78d3224 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -358,9 +358,13 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            # a single channel
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From cf7399fe8547f6e5061b61265227f1df3b744a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 54/57] fix: target lists without planets can be searched

---
 exorad/models/targetlist.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 048d396..690fae6 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -94,7 +94,12 @@ class BaseTargetList(Logger):
         for target in self.target:
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
@@ -436,7 +441,12 @@ class OldExcelTargetList(Logger):
         for target in self.target:
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From 00b3eb07164e2c03086d713623f0d9894e73f274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 55/57] fix: newer versions are looked for in the package's
 repository

---
 exorad/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..1264b19 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -4,7 +4,14 @@ from datetime import date
 
 # load package info
 __pkg_name__ = metadata.metadata("exorad")["Name"]
-__url__ = metadata.metadata("exorad")["Project-URL"]
+__url__ = next(
+    (
+        url.split(", ")[1]
+        for url in metadata.metadata("exorad").get_all("Project-URL", [])
+        if url.startswith("Repository, ")
+    ),
+    metadata.metadata("exorad")["Project-URL"],
+)
 __author__ = metadata.metadata("exorad")["Author"]
 __license__ = metadata.metadata("exorad")["license"]
 __summary__ = metadata.metadata("exorad")["Summary"]
-- 
2.43.0


From 4d0fca1eccb62bd30f22812231dbf07e19990b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 56/57] fix: trouble while looking for a newer version stays
 there

---
 exorad/utils/version_control.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..2cff0e1 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -39,7 +39,7 @@ class VersionControl(Logger):
                             )
                         )
 
-    def get_content(self, package_url):
+    def get_content(self, package_url, timeout=3):
         splitted_url = package_url.split("/")
         url = (
             "https://api.github.com/repos/{}/{}/contents/CHANGELOG.md".format(
@@ -47,16 +47,16 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
-        if req.status_code == requests.codes.ok:
-            self.status_code = True
-            req = req.json()
-            content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
-            content = content.splitlines()
-        else:
-            self.status_code = False
-            content = None
+        self.status_code = False
+        content = None
+        try:
+            req = requests.get(url, timeout=timeout)
+            if req.status_code == requests.codes.ok:
+                content = base64.b64decode(req.json()["content"])
+                content = content.decode("utf-8").splitlines()
+                self.status_code = True
+        except (requests.RequestException, ValueError, KeyError, TypeError):
+            self.debug("changelog not available", exc_info=True)
         return content
 
     def get_message(self):
@@ -91,11 +91,8 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
-            return True
+            with socket.create_connection((host, port), timeout=timeout):
+                return True
         except OSError as ex:
             print(ex)
             return False
-- 
2.43.0


From 896825318b92c2a93b8e8a3a22c44772dee01ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:34 +0000
Subject: [PATCH 57/57] fix: the changes since the installed version are told
 in full

---
 exorad/utils/version_control.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 2cff0e1..fc8139e 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -62,12 +62,13 @@ class VersionControl(Logger):
     def get_message(self):
         message = ""
         new_ver = ""
+        current = "## [{}]".format(self.current_version)
         for i, line in enumerate(self.content):
             if "## [" in line:
                 if "## [Unreleased]" in line:
                     continue
 
-                if "[{}]".format(self.current_version) in line:
+                if line.startswith(current):
                     self.debug("version already updated")
                     break
                 else:
@@ -75,7 +76,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if line_.startswith(current):
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0

