From e4eed1ddee957eef458d3f553b8c898b2514700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 01/13] fix: clearsky_index of scalars with zero clear-sky
 irradiance

A float ghi_clear of 0 (night) raised ZeroDivisionError instead of
returning the documented index of 0 that arrays and Series get.
---
 pvlib/irradiance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/irradiance.py b/pvlib/irradiance.py
index 677cdba..666fedd 100644
--- a/pvlib/irradiance.py
+++ b/pvlib/irradiance.py
@@ -1788,7 +1788,7 @@ def clearsky_index(ghi, ghi_clear, max_clearsky_index=2.0):
     clearsky_index : numeric
         Clearsky index. [unitless]
     """
-    clearsky_index = ghi / ghi_clear
+    clearsky_index = np.divide(ghi, ghi_clear)
     # set +inf, -inf, and nans to zero
     clearsky_index = np.where(~np.isfinite(clearsky_index), 0,
                               clearsky_index)
-- 
2.43.0


From 97ff44948a498202f8603766f79e11abd715f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 02/13] fix: inverter.adr with a scalar voltage of zero

With float inputs and a plain dict of parameters v_dc = 0 raised
ZeroDivisionError instead of returning the night tare.
---
 pvlib/inverter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/inverter.py b/pvlib/inverter.py
index 622fb9b..4201c4f 100644
--- a/pvlib/inverter.py
+++ b/pvlib/inverter.py
@@ -297,7 +297,7 @@ def adr(v_dc, p_dc, inverter, vtol=0.10):
     v_lim_lower = float(np.nanmax([v_min, mppt_low]) * (1 - vtol))
 
     pdc = p_dc / p_nom
-    vdc = v_dc / v_nom
+    vdc = np.divide(v_dc, v_nom)
     # zero voltage will lead to division by zero, but since power is
     # set to night time value later, these errors can be safely ignored
     with np.errstate(invalid='ignore', divide='ignore'):
-- 
2.43.0


From 8bf8c04dae87685065967910a1e858c9fa4d26b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:11 +0000
Subject: [PATCH 03/13] fix: breakdown-current gradients of bishop88

The first and second derivative of the breakdown current omitted the inner
derivative -1/breakdown_voltage of the breakdown term, so every gradient
returned by bishop88(..., gradients=True) with a nonzero breakdown_factor
(and the Newton iterations using them) was wrong.
---
 pvlib/singlediode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index 974d59d..e5a03e9 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -183,11 +183,13 @@ def bishop88(diode_voltage, photocurrent, saturation_current,
         brk_pwr_1 = np.power(brk_term, -breakdown_exp - 1)
         brk_pwr_2 = np.power(brk_term, -breakdown_exp - 2)
         brk_fctr = breakdown_factor * g_sh
+        brk_slope = breakdown_exp / breakdown_voltage  # -d(brk_term)/dvd * exp
         grad_i_brk = brk_fctr * (brk_pwr + diode_voltage *
-                                 -breakdown_exp * brk_pwr_1)
-        grad2i_brk = (brk_fctr * -breakdown_exp        # noqa: W503
+                                 brk_slope * brk_pwr_1)
+        grad2i_brk = (brk_fctr * brk_slope             # noqa: W503
                       * (2 * brk_pwr_1 + diode_voltage   # noqa: W503
-                         * (-breakdown_exp - 1) * brk_pwr_2))  # noqa: W503
+                         * (breakdown_exp + 1) / breakdown_voltage
+                         * brk_pwr_2))
         grad_i = -g_diode - g_sh - grad_i_recomb - grad_i_brk  # di/dvd
         grad_v = 1.0 - grad_i * resistance_series  # dv/dvd
         # dp/dv = d(iv)/dv = v * di/dv + i
-- 
2.43.0


From 93ac55b03dd9378d5d50410b0b7acf05e1185bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 04/13] fix: simplified_solis with a Series of length one

_calc_taud unwrapped the optical depth with taud[0], which raises KeyError for
a Series of length one whose index does not contain 0 (e.g. a DatetimeIndex).
---
 pvlib/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/clearsky.py b/pvlib/clearsky.py
index da9d197..a54977d 100644
--- a/pvlib/clearsky.py
+++ b/pvlib/clearsky.py
@@ -508,7 +508,7 @@ def _calc_taud(w, aod700, p):
             tds[1]*aod700 + tds[0] + tds[5]*np.log(p/p0))
 
     # be polite about matching the output type to the input type(s)
-    if len(taud) == 1:
+    if len(taud) == 1 and not isinstance(taud, pd.Series):
         taud = taud[0]
 
     return taud
-- 
2.43.0


From 62291f9adf4743c66819c6705d461e6d004a189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 05/13] fix: hour angle and geometric sunrise on days with a
 clock change

---
 pvlib/solarposition.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pvlib/solarposition.py b/pvlib/solarposition.py
index 4441ed0..3b6dde7 100644
--- a/pvlib/solarposition.py
+++ b/pvlib/solarposition.py
@@ -1438,9 +1438,13 @@ def _local_times_from_hours_since_midnight(times, hours):
     if not times.tz:
         raise ValueError('times must be localized')
 
-    # normalize local times to previous local midnight and add the hours until
-    # sunrise, sunset, and transit
-    return times.normalize() + pd.to_timedelta(hours, unit='h')
+    # clock time since the previous local midnight, at the UTC offset of times
+    naive_times = times.tz_localize(None)
+    since_midnight = naive_times - naive_times.normalize()
+
+    # go back to midnight and add the hours until sunrise, sunset, and transit
+    # (not using times.normalize(), as the UTC offset may change in between)
+    return times + (pd.to_timedelta(hours, unit='h') - since_midnight)
 
 
 def _times_to_hours_after_local_midnight(times):
@@ -1456,11 +1460,14 @@ def _times_to_hours_after_local_midnight(times):
     # We remove the timezone before normalizing for this reason.
     naive_normalized_times = times.tz_localize(None).normalize()
 
-    # Use Pandas functionality for shifting nonexistent times forward
-    normalized_times = naive_normalized_times.tz_localize(
+    # Check that midnight is not ambiguous
+    naive_normalized_times.tz_localize(
         times.tz, nonexistent='shift_forward', ambiguous='raise')
 
-    hrs = (times - normalized_times) / pd.Timedelta('1h')
+    # Clock time, not elapsed time: the UTC offset at midnight may differ from
+    # the UTC offset of times
+    hrs = (times.tz_localize(None) - naive_normalized_times) \
+        / pd.Timedelta('1h')
 
     # ensure array return instead of a version-dependent pandas <T>Index
     return np.array(hrs)
-- 
2.43.0


From 5c1afa5c16bbdd18d64b967e714ffef33677e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 06/13] fix: chandrupatla brackets of bishop88_mpp with mixed
 shapes

---
 pvlib/singlediode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/singlediode.py b/pvlib/singlediode.py
index e5a03e9..55817ed 100644
--- a/pvlib/singlediode.py
+++ b/pvlib/singlediode.py
@@ -692,8 +692,9 @@ def bishop88_mpp(photocurrent, saturation_current, resistance_series,
             )
             raise ImportError(msg) from e
 
-        vlo = np.zeros_like(photocurrent)
-        vhi = np.full_like(photocurrent, voc_est)
+        shape = _shape_of_max_size(photocurrent, voc_est)
+        vlo = np.zeros(shape)
+        vhi = np.full(shape, voc_est)
         kwargs_trimmed = method_kwargs.copy()
         kwargs_trimmed.pop("full_output", None)  # not valid for find_root
 
-- 
2.43.0


From 5d63284583819dc16e4e693ba1ad91fbf46d7380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 07/13] fix: snow.fully_covered_nrel with daily snowfall raised
 TypeError

---
 pvlib/snow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvlib/snow.py b/pvlib/snow.py
index b78a93a..f994dfd 100644
--- a/pvlib/snow.py
+++ b/pvlib/snow.py
@@ -60,7 +60,8 @@ def fully_covered_nrel(snowfall, snow_depth=None, threshold_snowfall=1.,
     # otherwise the first snowfall value is ignored
     freq = pd.infer_freq(snowfall.index)
     if freq is not None:
-        timedelta = pd.tseries.frequencies.to_offset(freq) / pd.Timedelta('1h')
+        timedelta = pd.Timedelta(
+            pd.tseries.frequencies.to_offset(freq)) / pd.Timedelta('1h')
         hourly_snow_rate.iloc[0] = snowfall.iloc[0] / timedelta
     else:  # can't infer frequency from index
         hourly_snow_rate.iloc[0] = 0  # replaces NaN
-- 
2.43.0


From 77cc4d60087b4c1b134657208a25d2c75e1cc061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 08/13] fix: sample interval of a day or longer lost its days

---
 pvlib/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/tools.py b/pvlib/tools.py
index 1d9db70..44e0877 100644
--- a/pvlib/tools.py
+++ b/pvlib/tools.py
@@ -433,7 +433,7 @@ def _get_sample_intervals(times, win_length):
     # determine if we can proceed
     if times.inferred_freq and len(np.unique(deltas)) == 1:
         sample_interval = times[1] - times[0]
-        sample_interval = sample_interval.seconds / 60  # in minutes
+        sample_interval = sample_interval.total_seconds() / 60  # in minutes
         samples_per_window = int(win_length / sample_interval)
         return sample_interval, samples_per_window
     else:
-- 
2.43.0


From 6a8f554ac12af58399a28c745b6e8139537d1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 09/13] fix: theta and phi of large arguments iterated on an
 aliased logarithm

---
 pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py b/pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py
index b0b7c6f..f5c2707 100644
--- a/pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py
+++ b/pvlib/ivtools/sdm/_fit_desoto_pvsyst_sandia.py
@@ -548,7 +548,7 @@ def _calc_theta_phi_exact(vmp, imp, iph, io, rs, rsh, nnsvth):
         # approximately 8 digits of precision.
         x = logargw
         for i in range(3):
-            x *= ((1. - np.log(x) + logargw) / (1. + x))
+            x = x * ((1. - np.log(x) + logargw) / (1. + x))
         phi[u] = x
     phi = np.transpose(phi)
 
@@ -577,7 +577,7 @@ def _calc_theta_phi_exact(vmp, imp, iph, io, rs, rsh, nnsvth):
         # approximately 8 digits of precision.
         x = logargw
         for i in range(3):
-            x *= ((1. - np.log(x) + logargw) / (1. + x))
+            x = x * ((1. - np.log(x) + logargw) / (1. + x))
         theta[u] = x
     theta = np.transpose(theta)
 
-- 
2.43.0


From c2fc963afac9fa75a4c1e82c7ef5215927bde2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:42 +0000
Subject: [PATCH 10/13] fix: read_tmy2 names its last column
 LastSnowfallUncertainty as documented

---
 pvlib/iotools/tmy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/tmy.py b/pvlib/iotools/tmy.py
index 28d20ff..9601fe2 100644
--- a/pvlib/iotools/tmy.py
+++ b/pvlib/iotools/tmy.py
@@ -368,7 +368,7 @@ def read_tmy2(filename):
     """  # noqa: E501
     # paste in the column info as one long line
     string = '%2d%2d%2d%2d%4d%4d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%4d%1s%1d%2d%1s%1d%2d%1s%1d%4d%1s%1d%4d%1s%1d%3d%1s%1d%4d%1s%1d%3d%1s%1d%3d%1s%1d%4d%1s%1d%5d%1s%1d%10d%3d%1s%1d%3d%1s%1d%3d%1s%1d%2d%1s%1d'  # noqa: E501
-    columns = 'year,month,day,hour,ETR,ETRN,GHI,GHISource,GHIUncertainty,DNI,DNISource,DNIUncertainty,DHI,DHISource,DHIUncertainty,GHillum,GHillumSource,GHillumUncertainty,DNillum,DNillumSource,DNillumUncertainty,DHillum,DHillumSource,DHillumUncertainty,Zenithlum,ZenithlumSource,ZenithlumUncertainty,TotCld,TotCldSource,TotCldUncertainty,OpqCld,OpqCldSource,OpqCldUncertainty,DryBulb,DryBulbSource,DryBulbUncertainty,DewPoint,DewPointSource,DewPointUncertainty,RHum,RHumSource,RHumUncertainty,Pressure,PressureSource,PressureUncertainty,Wdir,WdirSource,WdirUncertainty,Wspd,WspdSource,WspdUncertainty,Hvis,HvisSource,HvisUncertainty,CeilHgt,CeilHgtSource,CeilHgtUncertainty,PresentWeather,Pwat,PwatSource,PwatUncertainty,AOD,AODSource,AODUncertainty,SnowDepth,SnowDepthSource,SnowDepthUncertainty,LastSnowfall,LastSnowfallSource,LastSnowfallUncertaint'  # noqa: E501
+    columns = 'year,month,day,hour,ETR,ETRN,GHI,GHISource,GHIUncertainty,DNI,DNISource,DNIUncertainty,DHI,DHISource,DHIUncertainty,GHillum,GHillumSource,GHillumUncertainty,DNillum,DNillumSource,DNillumUncertainty,DHillum,DHillumSource,DHillumUncertainty,Zenithlum,ZenithlumSource,ZenithlumUncertainty,TotCld,TotCldSource,TotCldUncertainty,OpqCld,OpqCldSource,OpqCldUncertainty,DryBulb,DryBulbSource,DryBulbUncertainty,DewPoint,DewPointSource,DewPointUncertainty,RHum,RHumSource,RHumUncertainty,Pressure,PressureSource,PressureUncertainty,Wdir,WdirSource,WdirUncertainty,Wspd,WspdSource,WspdUncertainty,Hvis,HvisSource,HvisUncertainty,CeilHgt,CeilHgtSource,CeilHgtUncertainty,PresentWeather,Pwat,PwatSource,PwatUncertainty,AOD,AODSource,AODUncertainty,SnowDepth,SnowDepthSource,SnowDepthUncertainty,LastSnowfall,LastSnowfallSource,LastSnowfallUncertainty'  # noqa: E501
     hdr_columns = 'WBAN,City,State,TZ,latitude,longitude,altitude'
 
     tmy2, tmy2_meta = _read_tmy2(string, columns, hdr_columns, str(filename))
-- 
2.43.0


From 6a8a4fa2ac5be6b3497213d01341fda1f00cd10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:24 +0000
Subject: [PATCH 11/13] fix: Meteonorm requests labelled local times of aware
 timestamps as UTC

---
 pvlib/iotools/meteonorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvlib/iotools/meteonorm.py b/pvlib/iotools/meteonorm.py
index 61bf72b..e487e04 100644
--- a/pvlib/iotools/meteonorm.py
+++ b/pvlib/iotools/meteonorm.py
@@ -546,14 +546,14 @@ def _get_meteonorm(
         try:
             start = pd.Timestamp(start)
             start = start.tz_localize("UTC") if start.tzinfo is None else start
-            start = start.strftime("%Y-%m-%dT%H:%M:%SZ")
+            start = start.tz_convert("UTC").strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
     if (end is not None) & (end != 'now'):
         try:
             end = pd.Timestamp(end)
             end = end.tz_localize("UTC") if end.tzinfo is None else end
-            end = end.strftime("%Y-%m-%dT%H:%M:%SZ")
+            end = end.tz_convert("UTC").strftime("%Y-%m-%dT%H:%M:%SZ")
         except (ValueError, DateParseError):
             pass
 
-- 
2.43.0


From f1cdf7be0320462f738e348beee5e6a18f1d9398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:13 +0000
Subject: [PATCH 12/13] fix: get_surfrad ignored map_variables=False

---
 pvlib/iotools/surfrad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvlib/iotools/surfrad.py b/pvlib/iotools/surfrad.py
index 948ec5e..4d7bee9 100644
--- a/pvlib/iotools/surfrad.py
+++ b/pvlib/iotools/surfrad.py
@@ -259,7 +259,7 @@ def get_surfrad(station, start, end, map_variables=True,
     for f in filenames:
         try:
             dfi, file_metadata = read_surfrad(url + f,
-                                              map_variables=VARIABLE_MAP)
+                                              map_variables=map_variables)
             dfs.append(dfi)
 
         except urllib.error.HTTPError:
-- 
2.43.0


From f41579977450e1c596bbc180cd2c54a59bdcd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:41 +0000
Subject: [PATCH 13/13] fix: pvfactors_timeseries truncated tilts and azimuths
 of integer zeniths

---
 pvlib/bifacial/pvfactors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvlib/bifacial/pvfactors.py b/pvlib/bifacial/pvfactors.py
index ec6acfc..f798e1e 100644
--- a/pvlib/bifacial/pvfactors.py
+++ b/pvlib/bifacial/pvfactors.py
@@ -95,8 +95,9 @@ def pvfactors_timeseries(
     dni = np.array(dni)
     dhi = np.array(dhi)
     # GH 1127, GH 1332
-    surface_tilt = np.full_like(solar_zenith, surface_tilt)
-    surface_azimuth = np.full_like(solar_zenith, surface_azimuth)
+    surface_tilt = np.full_like(solar_zenith, surface_tilt, dtype=float)
+    surface_azimuth = np.full_like(solar_zenith, surface_azimuth,
+                                   dtype=float)
 
     # Import pvfactors functions for timeseries calculations.
     from pvfactors.run import run_timeseries_engine
-- 
2.43.0

