From 35ca6b25c882eb6bddf10e3212f461cd4687bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:14 +0000
Subject: [PATCH 01/29] fix: use_math() restores the scalar where()

use_math() assigned the current global 'where' to itself, so after use_numpy()
(the default) numpy.where stayed active in math mode and results depended on
which backend had been active before.
---
 pysolar/numeric.py | 282 ++++++++++++++++++++++-----------------------
 1 file changed, 141 insertions(+), 141 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..fa2aa87 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,141 +1,141 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def tm_yday_numpy(d):
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def tm_yday_numpy(d):
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
-- 
2.43.0


From 8304feb825f81e8c5f11ba8496f0b0479afeb7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 02/29] fix: numpy backend converts aware datetimes to UTC
 exactly

Converting an aware datetime straight to datetime64 truncates its UTC offset to
whole minutes, so for zones whose offset has seconds the day, hour and minute of
the same instant differed from the ones in UTC (and from the math backend).
---
 pysolar/numeric.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index fa2aa87..7317200 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -28,6 +28,7 @@ To force builtins math module usage when numpy is available:
     pysolar.use_math()
 """
 
+from datetime import timezone
 from math import degrees, cos, sin, radians, tan, pi
 from math import acos, atan, asin, atan2, exp, e
 
@@ -58,7 +59,19 @@ def tm_yday_math(d):
 tm_yday = tm_yday_math
 
 
+def to_utc(d):
+    """
+    A timezone-aware datetime as a naive one in UTC, for conversion to datetime64
+    (which has no timezone, and drops the seconds of a UTC offset); anything else
+    is returned unchanged.
+    """
+    if getattr(d, 'tzinfo', None) is not None:
+        d = d.astimezone(timezone.utc).replace(tzinfo=None)
+    return d
+
+
 def tm_yday_numpy(d):
+    d = to_utc(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -71,6 +84,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = to_utc(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -83,6 +97,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = to_utc(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0


From 7e8e56da63edefb8dd74853a7146f741e1d2ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:18 +0000
Subject: [PATCH 03/29] fix: get_radiation_direct() is zero just below the
 horizon

For altitudes between about -0.014 and 0 degrees the exponential overflowed:
nan with numpy (inf * 0), OverflowError with math, instead of zero.
---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..204a095 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # below the horizon the exponential would overflow; use the zenith there
+    air_mass_ratio = get_air_mass_ratio(math.where(is_daytime, altitude_deg, 90.))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From 904c4a3e4daccdfe809c7ce076f51602ca9fd0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 04/29] fix: keep asin and acos arguments within their domain

At the subsolar point, for a panel facing the sun, or for the fast azimuth near
due east and west, rounding gave arguments like 1.0000000000000002: nan with
numpy, ValueError with math.
---
 pysolar/solar.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..8763097 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -43,6 +43,11 @@ def solar_test():
         d = d + thirty_minutes
 
 
+def limit_to_unit(x):
+    "limits x to -1 .. 1: rounding can take a sine or cosine just outside the domain of asin and acos."
+    return math.where(x > 1, 1., math.where(x < -1, -1., x))
+
+
 def equation_of_time(day):
     "returns the number of minutes to add to mean solar time to get actual solar time."
     b = 2 * math.pi / 364.0 * (day - 81)
@@ -139,7 +144,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(limit_to_unit(first_term + second_term)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +175,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(limit_to_unit(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +261,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(limit_to_unit(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -369,7 +374,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(limit_to_unit((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad))))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 5e26977ad96fc2effb007d4cefb87b073c5cf67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 05/29] fix: cubic term of mean sidereal time

Reda & Andreas (2005) eq. 28 is ... + 0.000387933 T^2 - T^3 / 38710000; the cubic
term was multiplied by 0.000387933 as well.
---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 8763097..5867452 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -269,7 +269,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc ** 3 / 38710000
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From e2fe29597384c919ea6b1e92ebe3b317eec15b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:23 +0000
Subject: [PATCH 06/29] fix: get_refraction_correction() at the pole of its
 formula

An elevation angle of exactly -5.11 degrees raised ZeroDivisionError, although
no correction is applied below the horizon.
---
 pysolar/solar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 5867452..41fc52c 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -334,16 +334,19 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     sun_radius = 0.26667
     atmos_refract = 0.5667
     tea = topocentric_elevation_angle
+    above_horizon = tea >= -1.0*(sun_radius + atmos_refract)
 
     # Approximation only valid if sun is not well below horizon
     # This approximation could be improved; see history at https://github.com/pingswept/pysolar/pull/23
     # Better method could come from Auer and Standish [2000]:
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
+    # (not used below the horizon, where the formula has a pole)
+    tea = math.where(above_horizon, tea, 0.)
     a = pressure * 2.830 * 1.02
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
+    del_e = math.where(above_horizon,
                        a / b, 0.)
 
     return del_e
-- 
2.43.0


From e49671284e1dfe11502519f1f8389313a4fdae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 07/29] fix: get_delta_t() after the end of the table

From the year after the table's last one on, January to March used the value of
January to March of that last year, not the last known value, so delta_t jumped
back by 0.1 s every January.
---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..fd18f32 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 72c3c09fce498e30689d41e7c68cba994889081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 08/29] fix: keep the CRLF line endings of numeric.py

35ca6b2 had converted them by accident; the file's diff against the base is
now only the lines those fixes touch.
---
 pysolar/numeric.py | 312 ++++++++++++++++++++++-----------------------
 1 file changed, 156 insertions(+), 156 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 7317200..9a57076 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -1,156 +1,156 @@
-
-#    Copyright François Steinmetz
-#
-#    This file is part of Pysolar.
-#
-#    Pysolar is free software; you can redistribute it and/or modify
-#    it under the terms of the GNU General Public License as published by
-#    the Free Software Foundation; either version 3 of the License, or
-#    (at your option) any later version.
-#
-#    Pysolar is distributed in the hope that it will be useful,
-#    but WITHOUT ANY WARRANTY; without even the implied warranty of
-#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
-#    GNU General Public License for more details.
-#
-#    You should have received a copy of the GNU General Public License along
-#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
-
-
-"""
-Import math functions from either numpy (in order to vectorize operations) or
-builtins math module.
-
-By default, use numpy when available.
-
-To force builtins math module usage when numpy is available:
-    import pysolar
-    pysolar.use_math()
-"""
-
-from datetime import timezone
-from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
-
-current_mod = 'math'
-
-
-def globals_import_from(module, name, name_as):
-    """
-    Does "from <module> import <name> as <name_as>" (globally)
-    """
-    module = __import__(module, fromlist=[name])
-    globals()[name_as] = getattr(module, name)
-
-
-def where_math(condition, x, y):
-    """ scalar version of numpy.where """
-    if condition:
-        return x
-    else:
-        return y
-
-where = where_math
-
-
-def tm_yday_math(d):
-    return d.utctimetuple().tm_yday
-
-tm_yday = tm_yday_math
-
-
-def to_utc(d):
-    """
-    A timezone-aware datetime as a naive one in UTC, for conversion to datetime64
-    (which has no timezone, and drops the seconds of a UTC offset); anything else
-    is returned unchanged.
-    """
-    if getattr(d, 'tzinfo', None) is not None:
-        d = d.astimezone(timezone.utc).replace(tzinfo=None)
-    return d
-
-
-def tm_yday_numpy(d):
-    d = to_utc(d)
-    dd = numpy.array(d, dtype='datetime64[D]')
-    dy = numpy.array(d, dtype='datetime64[Y]')
-    return (dd - dy).astype('int') + 1
-
-
-def tm_hour_math(d):
-    return d.utctimetuple().tm_hour
-
-tm_hour = tm_hour_math
-
-
-def tm_hour_numpy(d):
-    d = to_utc(d)
-    dh = numpy.array(d, dtype='datetime64[h]')
-    dd = numpy.array(d, dtype='datetime64[D]')
-    return (dh - dd).astype('int')
-
-
-def tm_min_math(d):
-    return d.utctimetuple().tm_min
-
-tm_min = tm_min_math
-
-
-def tm_min_numpy(d):
-    d = to_utc(d)
-    dm = numpy.array(d, dtype='datetime64[m]')
-    dh = numpy.array(d, dtype='datetime64[h]')
-    return (dm - dh).astype('int')
-
-
-def use_numpy():
-    """
-    Import required functions/constants from numpy
-    """
-    globals_import_from('numpy', 'degrees', 'degrees')
-    globals_import_from('numpy', 'cos', 'cos')
-    globals_import_from('numpy', 'sin', 'sin')
-    globals_import_from('numpy', 'radians', 'radians')
-    globals_import_from('numpy', 'tan', 'tan')
-    globals_import_from('numpy', 'pi', 'pi')
-    globals_import_from('numpy', 'arccos', 'acos')
-    globals_import_from('numpy', 'arctan', 'atan')
-    globals_import_from('numpy', 'arcsin', 'asin')
-    globals_import_from('numpy', 'arctan2', 'atan2')
-    globals_import_from('numpy', 'exp', 'exp')
-    globals_import_from('numpy', 'e', 'e')
-    globals_import_from('numpy', 'where', 'where')
-    globals()['tm_yday'] = tm_yday_numpy
-    globals()['tm_hour'] = tm_hour_numpy
-    globals()['tm_min'] = tm_min_numpy
-    globals()['current_mod'] = 'numpy'
-
-
-def use_math():
-    """
-    Import required functions/constants from builtins math module
-    """
-    globals_import_from('math', 'degrees', 'degrees')
-    globals_import_from('math', 'cos', 'cos')
-    globals_import_from('math', 'sin', 'sin')
-    globals_import_from('math', 'radians', 'radians')
-    globals_import_from('math', 'tan', 'tan')
-    globals_import_from('math', 'pi', 'pi')
-    globals_import_from('math', 'acos', 'acos')
-    globals_import_from('math', 'atan', 'atan')
-    globals_import_from('math', 'asin', 'asin')
-    globals_import_from('math', 'atan2', 'atan2')
-    globals_import_from('math', 'exp', 'exp')
-    globals_import_from('math', 'e', 'e')
-    globals()['where'] = where_math
-    globals()['tm_yday'] = tm_yday_math
-    globals()['tm_hour'] = tm_hour_math
-    globals()['tm_min'] = tm_min_math
-    globals()['current_mod'] = 'math'
-
-
-try:
-    import numpy
-    use_numpy()
-except ImportError:
-    pass
+
+#    Copyright François Steinmetz
+#
+#    This file is part of Pysolar.
+#
+#    Pysolar is free software; you can redistribute it and/or modify
+#    it under the terms of the GNU General Public License as published by
+#    the Free Software Foundation; either version 3 of the License, or
+#    (at your option) any later version.
+#
+#    Pysolar is distributed in the hope that it will be useful,
+#    but WITHOUT ANY WARRANTY; without even the implied warranty of
+#    MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+#    GNU General Public License for more details.
+#
+#    You should have received a copy of the GNU General Public License along
+#    with Pysolar. If not, see <http://www.gnu.org/licenses/>.
+
+
+"""
+Import math functions from either numpy (in order to vectorize operations) or
+builtins math module.
+
+By default, use numpy when available.
+
+To force builtins math module usage when numpy is available:
+    import pysolar
+    pysolar.use_math()
+"""
+
+from datetime import timezone
+from math import degrees, cos, sin, radians, tan, pi
+from math import acos, atan, asin, atan2, exp, e
+
+current_mod = 'math'
+
+
+def globals_import_from(module, name, name_as):
+    """
+    Does "from <module> import <name> as <name_as>" (globally)
+    """
+    module = __import__(module, fromlist=[name])
+    globals()[name_as] = getattr(module, name)
+
+
+def where_math(condition, x, y):
+    """ scalar version of numpy.where """
+    if condition:
+        return x
+    else:
+        return y
+
+where = where_math
+
+
+def tm_yday_math(d):
+    return d.utctimetuple().tm_yday
+
+tm_yday = tm_yday_math
+
+
+def to_utc(d):
+    """
+    A timezone-aware datetime as a naive one in UTC, for conversion to datetime64
+    (which has no timezone, and drops the seconds of a UTC offset); anything else
+    is returned unchanged.
+    """
+    if getattr(d, 'tzinfo', None) is not None:
+        d = d.astimezone(timezone.utc).replace(tzinfo=None)
+    return d
+
+
+def tm_yday_numpy(d):
+    d = to_utc(d)
+    dd = numpy.array(d, dtype='datetime64[D]')
+    dy = numpy.array(d, dtype='datetime64[Y]')
+    return (dd - dy).astype('int') + 1
+
+
+def tm_hour_math(d):
+    return d.utctimetuple().tm_hour
+
+tm_hour = tm_hour_math
+
+
+def tm_hour_numpy(d):
+    d = to_utc(d)
+    dh = numpy.array(d, dtype='datetime64[h]')
+    dd = numpy.array(d, dtype='datetime64[D]')
+    return (dh - dd).astype('int')
+
+
+def tm_min_math(d):
+    return d.utctimetuple().tm_min
+
+tm_min = tm_min_math
+
+
+def tm_min_numpy(d):
+    d = to_utc(d)
+    dm = numpy.array(d, dtype='datetime64[m]')
+    dh = numpy.array(d, dtype='datetime64[h]')
+    return (dm - dh).astype('int')
+
+
+def use_numpy():
+    """
+    Import required functions/constants from numpy
+    """
+    globals_import_from('numpy', 'degrees', 'degrees')
+    globals_import_from('numpy', 'cos', 'cos')
+    globals_import_from('numpy', 'sin', 'sin')
+    globals_import_from('numpy', 'radians', 'radians')
+    globals_import_from('numpy', 'tan', 'tan')
+    globals_import_from('numpy', 'pi', 'pi')
+    globals_import_from('numpy', 'arccos', 'acos')
+    globals_import_from('numpy', 'arctan', 'atan')
+    globals_import_from('numpy', 'arcsin', 'asin')
+    globals_import_from('numpy', 'arctan2', 'atan2')
+    globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'where', 'where')
+    globals()['tm_yday'] = tm_yday_numpy
+    globals()['tm_hour'] = tm_hour_numpy
+    globals()['tm_min'] = tm_min_numpy
+    globals()['current_mod'] = 'numpy'
+
+
+def use_math():
+    """
+    Import required functions/constants from builtins math module
+    """
+    globals_import_from('math', 'degrees', 'degrees')
+    globals_import_from('math', 'cos', 'cos')
+    globals_import_from('math', 'sin', 'sin')
+    globals_import_from('math', 'radians', 'radians')
+    globals_import_from('math', 'tan', 'tan')
+    globals_import_from('math', 'pi', 'pi')
+    globals_import_from('math', 'acos', 'acos')
+    globals_import_from('math', 'atan', 'atan')
+    globals_import_from('math', 'asin', 'asin')
+    globals_import_from('math', 'atan2', 'atan2')
+    globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'e', 'e')
+    globals()['where'] = where_math
+    globals()['tm_yday'] = tm_yday_math
+    globals()['tm_hour'] = tm_hour_math
+    globals()['tm_min'] = tm_min_math
+    globals()['current_mod'] = 'math'
+
+
+try:
+    import numpy
+    use_numpy()
+except ImportError:
+    pass
-- 
2.43.0


From 412b7d7d2e2432972868cdc25b291572c5032f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 09/29] fix: annual variation in mean_earth_sun_distance()

The division by 365 was outside the sine, so its argument was a multiple of
2 pi and the distance was always 1.
---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..3473843 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -209,7 +209,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From 17aaec43487731263a2a3d013e22709a0e606840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 10/29] fix: util takes sines and cosines of the altitude in
 radians

get_altitude() returns degrees, and solarelevation_function_clear(),
solarelevation_function_overcast() and direct_underclear() passed that to sin().
---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3473843..986c8ca 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -317,7 +317,7 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
             and proposed new approaches", energy 30 (2005), pp 1533 - 1549.
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
 
 @check_aware_dt('when')
@@ -361,7 +361,7 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
         Design of Buildings"
 
     """
-    altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
+    altitude = math.radians(solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure))
     return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
 
 
@@ -518,9 +518,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From 855e202eb1e9b614088ed593303e5e09b6481248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 11/29] fix: global_irradiance_clear() uses the atmosphere it
 is given

temperature, pressure and (for the diffuse part) TL were ignored, so the global
irradiance was not the sum of the direct and diffuse ones for the same arguments.
---
 pysolar/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 986c8ca..9872e07 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -573,12 +573,10 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature, pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature, pressure, TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From 94caa7f3617d0e62b854b4837c29085d8b3d5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 12/29] fix: get_sunrise_sunset_transit() on days when the UTC
 offset changes

The times are computed for the UTC offset of 'when' but were then labelled as
wall clock times, an hour off on the other side of the change, and dependent on
the time of day of 'when'.
---
 pysolar/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 9872e07..fe30f42 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -29,7 +29,8 @@
 """
 from datetime import \
     datetime, \
-    timedelta
+    timedelta, \
+    timezone
 from . import numeric as math
 from . import solar, constants
 from .tzinfo_check import check_aware_dt
@@ -156,10 +157,11 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         *
             (12 / math.pi)
         )
-    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = when.tzinfo)
-    sunrise_time = same_day + timedelta(hours = TON - ha)
-    sunset_time = same_day + timedelta(hours = TON + ha)
-    transit_time = same_day + timedelta(hours = TON)
+    # the times above are for the offset from UTC at 'when', which other times of the day need not have
+    same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
+    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
+    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
+    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From 1a31660f8eb11e8b0d8f655f106a2e8b69d033b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:46 +0000
Subject: [PATCH 13/29] fix: datetime_range() accepts a fractional step_minutes

The stub declares a float, but range() was called with one.
---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..5ee6976 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From 6650ce8e0e42ebea52260f8a0c2a4af0cef1b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 14/29] fix: a missing datetime argument is a TypeError

check_aware_dt raised KeyError before the function could report it.
---
 pysolar/tzinfo_check.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 2518672..8b96bce 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -81,6 +81,8 @@ def check_aware_dt(*argnames):
           try:
             dt = args[full.args.index(argname)]
           except (IndexError, ValueError):
+            if argname not in kwargs:
+              continue # missing: the call below says so
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-- 
2.43.0


From fd33bbdb84ed8aca112e6172862399a0d913b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 15/29] fix: numeric provides log()

rest.get_effective_aerosol_wavelength() uses it; every direct irradiance of rest
failed with AttributeError.
---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 9a57076..f9583e9 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -30,7 +30,7 @@ To force builtins math module usage when numpy is available:
 
 from datetime import timezone
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, e, log
 
 current_mod = 'math'
 
@@ -119,6 +119,7 @@ def use_numpy():
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
     globals_import_from('numpy', 'e', 'e')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
     globals()['tm_hour'] = tm_hour_numpy
@@ -142,6 +143,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
+    globals_import_from('math', 'log', 'log')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
-- 
2.43.0


From e6c19da885cfe55813f505e053afa54e374acd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:51 +0000
Subject: [PATCH 16/29] fix: optical masses of rest.py

Gueymard's formula is 1 / (cos Z + a Z^b / (c - Z)^d) with Z in degrees; the
parentheses divided the cosine too and the angle was in radians, so the masses
at the zenith were thousands instead of 1.
---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From b3197824882ca8e4ce9e983b35a35b495846984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 17/29] fix: rest applies the pressure correction once

get_optical_mass_rayleigh() already scales the mass with the pressure.
---
 pysolar/rest.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..42e9622 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -134,8 +134,7 @@ def get_broadband_direct_normal_irradiance(altitude_deg, pressure_millibars=stan
 def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=standard_pressure_millibars, ozone_atm_cm=0.35, nitrogen_atm_cm=0.0002, precipitable_water_cm=5.0, turbidity_alpha=1.3, turbidity_beta=0.6):
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
-    mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = get_optical_mass_rayleigh(altitude_deg, pressure_millibars) # corrected for pressure
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From c7d834dc0aef5f3b9c6bf62852156c453d2d08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 18/29] fix: get_nitrogen_transmittance() uses its
 nitrogen_atm_cm argument

---
 pysolar/rest.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 42e9622..c3f800c 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -199,11 +199,11 @@ def get_ground_albedo(band):
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
     if band == "high-frequency":
-        g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
-            (1 + 22295.0 * un ** 2)
-        g2 = un * (-1.2134 + 59.324 * un) / (1 + 8847.8 * un ** 2)
-        g3 = (0.17499 + 61.658 * un + 9196.4 * un ** 2) / \
-            (1 + 74109.0 * un ** 2)
+        g1 = (0.17499 + 41.654 * nitrogen_atm_cm - 2146.4 * nitrogen_atm_cm ** 2) / \
+            (1 + 22295.0 * nitrogen_atm_cm ** 2)
+        g2 = nitrogen_atm_cm * (-1.2134 + 59.324 * nitrogen_atm_cm) / (1 + 8847.8 * nitrogen_atm_cm ** 2)
+        g3 = (0.17499 + 61.658 * nitrogen_atm_cm + 9196.4 * nitrogen_atm_cm ** 2) / \
+            (1 + 74109.0 * nitrogen_atm_cm ** 2)
         return min(1, (1 + g1 * mw + g2 * mw ** 2) / (1 + g3 * mw))
     else:
         return 1.0
-- 
2.43.0


From b398eb655c86eabed3538ae6f6827559304a533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:59 +0000
Subject: [PATCH 19/29] fix: type stubs match the functions they describe

Parameters of extraterrestrial_irrad, direct_underclear, global_irradiance_clear,
clear_index and get_apparent_sidereal_time were in an order, or had names, that
the functions do not accept; nutation is a dictionary.
---
 pysolar/solar.pyi | 8 ++++----
 pysolar/util.pyi  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index 93b1b92..e1fff34 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -1,14 +1,14 @@
 # Stubs for pysolar.solar (Python 3.6)
 
 import datetime
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 def solar_test() -> None: ...
 def equation_of_time(day:int) -> float: ...
 def get_aberration_correction(sun_earth_distance:float) -> float: ...
 def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_apparent_sidereal_time(jd:float, jme:float, nutation_float) -> float: ...
+def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
 def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
 def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
 def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
@@ -26,7 +26,7 @@ def get_hour_angle(when:datetime.datetime, longitude_deg:float) -> float: ...
 def get_incidence_angle(topocentric_zenith_angle:float, slope:float, slope_orientation:float, topocentric_azimuth_angle:float) -> float: ...
 def get_local_hour_angle(apparent_sidereal_time:float, longitude:float, geocentric_sun_right_ascension:float) -> float: ...
 def get_mean_sidereal_time(jd:float) -> float: ...
-def get_nutation(jce:float) -> float: ...
+def get_nutation(jce:float) -> Dict[str,float]: ...
 def get_parallax_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, geocentric_sun_declination:float) -> float: ...
 def get_position(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> Tuple[float, float]: ...
 def get_projected_radial_distance(elevation:float, latitude:float) -> float: ...
@@ -40,4 +40,4 @@ def get_topocentric_local_hour_angle(local_hour_angle:float, parallax_sun_right_
 def get_topocentric_sun_declination(geocentric_sun_declination:float, projected_axial_distance:float, equatorial_horizontal_parallax:float, parallax_sun_right_ascension:float, local_hour_angle:float) -> float: ...
 def get_topocentric_sun_right_ascension(projected_radial_distance:float, equatorial_horizontal_parallax:float, local_hour_angle:float, apparent_sun_longitude:float, true_ecliptic_obliquity:float, geocentric_latitude:float) -> float: ...
 def get_topocentric_zenith_angle(latitude:float, topocentric_sun_declination:float, topocentric_local_hour_angle:float, pressure:float, temperature:float) -> float: ...
-def get_true_ecliptic_obliquity(jme:float, nutation:float) -> float: ...
+def get_true_ecliptic_obliquity(jme:float, nutation:Dict[str,float]) -> float: ...
diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 5f333ca..3b58afa 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -16,15 +16,15 @@ def get_sunrise_time(latitude_deg:float, longitude_deg:float, when:datetime.date
 def get_sunset_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def get_transit_time(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> datetime.datetime: ...
 def mean_earth_sun_distance(when:datetime.datetime) -> float: ...
-def extraterrestrial_irrad(when:datetime.datetime, latitude_deg:float, longitude_deg:float, SC:float = ...) -> float: ...
+def extraterrestrial_irrad(latitude_deg:float, longitude_deg:float, when:datetime.datetime, SC:float = ...) -> float: ...
 def declination_degree(when:datetime.datetime, TY:float = ...) -> float: ...
 def solarelevation_function_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., elevation:float = ...) -> float: ...
 def solarelevation_function_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_transmittance(TL:float = ...) -> float: ...
 def diffuse_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
 def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ..., TL:float = ...) -> float: ...
-def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
-def global_irradiance_clear(DIRC, DIFFC, latitude_deg:float, longitude_deg:float, when:datetime.datetime, temperature:float = ..., pressure:float = ..., TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ...) -> float: ...
+def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
+def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], when:datetime.datetime, latitude_deg:float, longitude_deg:float) -> float: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-- 
2.43.0


From e6f65c1ed1f530036aae023bb01d040952b172da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 20/29] fix: get_azimuth_fast() checks its datetime itself

In math mode something that is no datetime got as far as an AttributeError; every
other function taking a datetime raises ValueError.
---
 pysolar/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 41fc52c..6ed3880 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -167,6 +167,7 @@ def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):
     return azimuth
 
 
+@check_aware_dt('when')
 def get_azimuth_fast(latitude_deg, longitude_deg, when):
 # expect 230 degrees for solar.get_azimuth(42.364908,-71.112828,datetime.datetime(2007, 2, 18, 20, 18, 0, 0))
     day = math.tm_yday(when)
-- 
2.43.0


From f531e68c70723740bd17bb8d3bd7680c47cf438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 21/29] fix: stubs of the nutation dictionary and the
 aberration functions

get_apparent_sun_longitude() takes the nutation dictionary, get_coeff() lists of
triples, and get_aberration_coeffs() returns functions.
---
 pysolar/constants.pyi | 6 +++---
 pysolar/solar.pyi     | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysolar/constants.pyi b/pysolar/constants.pyi
index a6b8780..48238b4 100644
--- a/pysolar/constants.pyi
+++ b/pysolar/constants.pyi
@@ -1,10 +1,10 @@
 # Stubs for pysolar.constants (Python 3.6)
 
-from typing import Dict, List, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 
-aberration_coeffs: Dict[str,float]
+aberration_coeffs: Optional[Dict[str,Callable[[float], float]]]
 
-def get_aberration_coeffs() -> Dict[str,float]: ...
+def get_aberration_coeffs() -> Dict[str,Callable[[float], float]]: ...
 
 earth_radius: float
 earth_axis_inclination: float
diff --git a/pysolar/solar.pyi b/pysolar/solar.pyi
index e1fff34..83411ed 100644
--- a/pysolar/solar.pyi
+++ b/pysolar/solar.pyi
@@ -9,10 +9,10 @@ def get_aberration_correction(sun_earth_distance:float) -> float: ...
 def get_altitude(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def get_altitude_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
 def get_apparent_sidereal_time(jd:float, jme:float, nutation:Dict[str,float]) -> float: ...
-def get_apparent_sun_longitude(geocentric_longitude:float, nutation:float, ab_correction:float) -> float: ...
+def get_apparent_sun_longitude(geocentric_longitude:float, nutation:Dict[str,float], ab_correction:float) -> float: ...
 def get_azimuth(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ...) -> float: ...
 def get_azimuth_fast(latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
-def get_coeff(jme:float, coeffs:List[List[float]]) -> float: ...
+def get_coeff(jme:float, coeffs:List[List[Tuple[float, float, float]]]) -> float: ...
 def get_declination(day:int) -> float: ...
 def get_equatorial_horizontal_parallax(sun_earth_distance:float) -> float: ...
 def get_flattened_latitude(latitude:float) -> float: ...
-- 
2.43.0


From f04b79e76af99b492040aabb66ee63445d2cfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 22/29] fix: stubs of diffuse_ratio() and clear_index() for
 arrays

---
 pysolar/util.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysolar/util.pyi b/pysolar/util.pyi
index 3b58afa..cbcd55e 100644
--- a/pysolar/util.pyi
+++ b/pysolar/util.pyi
@@ -26,5 +26,5 @@ def diffuse_underovercast(latitude_deg:float, longitude_deg:float, when:datetime
 def direct_underclear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_clear(latitude_deg:float, longitude_deg:float, when:datetime.datetime, TY:float = ..., AM:float = ..., TL:float = ..., elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
 def global_irradiance_overcast(latitude_deg:float, longitude_deg:float, when:datetime.datetime, elevation:float = ..., temperature:float = ..., pressure:float = ...) -> float: ...
-def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> float: ...
-def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> float: ...
+def diffuse_ratio(DIFF_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int]) -> Union[numpy.ndarray,float]: ...
+def clear_index(ghi_data:Union[numpy.array,numpy.ndarray,numpy.generic,float,int], latitude_deg:float, longitude_deg:float, when:datetime.datetime) -> Union[numpy.ndarray,float]: ...
-- 
2.43.0


From 9109b335dab4e90b3b5f5a0ec72bc9aac1666cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 23/29] fix: a datetime whose timezone gives no UTC offset is
 naive too

Python counts such a datetime as naive. The functions answered for it as if
it were in UTC, or in the system's timezone, or failed in various ways.
---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 8b96bce..481fc94 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -90,7 +90,7 @@ def check_aware_dt(*argnames):
               raise ValueError(
                 "Expected a 'datetime.datetime' object \
     for arg '%s', got %s instead" % (argname, dt))
-            if dt.tzinfo is None:
+            if dt.tzinfo is None or dt.utcoffset() is None: # both are naive to Python
               raise NoTimeZoneInfoError(argname, dt)
       return func(*args, **kwargs)
     return func_with_check
-- 
2.43.0


From 7af8b8051da03588ce3d397663ae8f1a71e97fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 24/29] fix: times and classes are no datetime objects

datetime.time objects have a tzinfo attribute and so passed the check, to
fail with an AttributeError later.
---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 481fc94..7cf6af1 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -86,7 +86,7 @@ def check_aware_dt(*argnames):
             dt = kwargs[argname]
           # checking if dt is timezone-aware
           if not hasattr(dt, 'shape'):   # don't raise Exception if dt is an array (assumed of datetime64)
-            if not hasattr(dt, 'tzinfo'):
+            if isinstance(dt, type) or not hasattr(dt, 'tzinfo') or not hasattr(dt, 'utctimetuple'): # a time has a tzinfo, too
               raise ValueError(
                 "Expected a 'datetime.datetime' object \
     for arg '%s', got %s instead" % (argname, dt))
-- 
2.43.0


From 73cc6d9688dc86876fb6def5a42bb2404a368cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 25/29] fix: get_radiation_direct() checks its datetime like
 the other functions

It answered for a naive datetime as if it were in UTC, whatever its author
meant, and failed with an AttributeError for something that is no datetime.
---
 pysolar/radiation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 204a095..1f39eea 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -19,6 +19,7 @@
 
 """
 from . import numeric as math
+from .tzinfo_check import check_aware_dt
 
 def get_air_mass_ratio(altitude_deg):
     # from Masters, p. 412
@@ -40,6 +41,7 @@ def get_optical_depth(day):
     return 0.174 + (0.035 * math.sin(2 * math.pi / 365 * (day - 100)))
 #end get_optical_depth
 
+@check_aware_dt('when')
 def get_radiation_direct(when, altitude_deg):
     # from Masters, p. 412
     is_daytime = (altitude_deg > 0)
-- 
2.43.0


From 9aa8e73057cabf75b6d3aa99e6c65a303834db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:01 +0000
Subject: [PATCH 26/29] fix: NoTimeZoneInfoError could not be copied, pickled
 or sent from a worker process

---
 pysolar/tzinfo_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/tzinfo_check.py b/pysolar/tzinfo_check.py
index 7cf6af1..ec7af96 100644
--- a/pysolar/tzinfo_check.py
+++ b/pysolar/tzinfo_check.py
@@ -7,7 +7,7 @@ class NoTimeZoneInfoError(ValueError):
   def __init__(self, argname, dt, *args):
     self.argname = argname
     self.dt = dt
-    super().__init__(*args)
+    super().__init__(argname, dt, *args) # what unpickling passes to __init__
 
   def __str__(self):
     return """datetime value '{dt}' given for arg '{argname}' \
-- 
2.43.0


From e6bed1074c317ee826f2f52ab63224c60222dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 27/29] fix: get_aerosol_optical_depth() of numpy integers

An integer array or scalar of numpy cannot be raised to a negative integer power.
---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index c3f800c..28be7df 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -41,7 +41,7 @@ def get_aerosol_forward_scatterance_factor(altitude_deg):
 
 def get_aerosol_optical_depth(turbidity_beta, effective_wavelength, turbidity_alpha):
     # returns tau_a
-    return turbidity_beta * effective_wavelength ** -turbidity_alpha
+    return turbidity_beta / effective_wavelength ** turbidity_alpha
 
 def get_aerosol_scattering_correction_factor(band, ma, tau_a):
     # returns F
-- 
2.43.0


From 48c2a67f59d982b33c89425e5e6646e9140a6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:40 +0000
Subject: [PATCH 28/29] fix: sunrise, sunset and transit for a longitude in
 single precision

timedelta() takes no numpy.float32.
---
 pysolar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index fe30f42..ed3dfb4 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -159,9 +159,9 @@ def get_sunrise_sunset_transit(latitude_deg, longitude_deg, when):
         )
     # the times above are for the offset from UTC at 'when', which other times of the day need not have
     same_day = datetime(year = when.year, month = when.month, day = when.day, tzinfo = timezone(timedelta(seconds = utc_offset)))
-    sunrise_time = (same_day + timedelta(hours = TON - ha)).astimezone(when.tzinfo)
-    sunset_time = (same_day + timedelta(hours = TON + ha)).astimezone(when.tzinfo)
-    transit_time = (same_day + timedelta(hours = TON)).astimezone(when.tzinfo)
+    sunrise_time = (same_day + timedelta(hours = float(TON - ha))).astimezone(when.tzinfo)
+    sunset_time = (same_day + timedelta(hours = float(TON + ha))).astimezone(when.tzinfo)
+    transit_time = (same_day + timedelta(hours = float(TON))).astimezone(when.tzinfo)
     return sunrise_time, sunset_time, transit_time
 
 @check_aware_dt('when')
-- 
2.43.0


From 7e00c4b95ce8ea19c158136951739831348c07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:39 +0000
Subject: [PATCH 29/29] fix: datetime_range() across a change of the UTC offset

Steps on the clock of the zone left out or repeated an hour there.
---
 pysolar/simulate.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5ee6976..03dca00 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -27,10 +27,17 @@ from . import solar
 def datetime_range(start_datetime, end_datetime, step_minutes):
     '''yields a sequence of datetimes evenly spaced apart by step_minutes.'''
     step = step_minutes * 60
+    zone = start_datetime.tzinfo
+    if zone is not None and end_datetime.tzinfo is not None :
+        # on the clock of the zone the steps would be uneven where its offset from UTC changes
+        start_datetime = start_datetime.astimezone(datetime.timezone.utc)
+        end_datetime = end_datetime.astimezone(datetime.timezone.utc)
+    #end if
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
     for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
-        yield start_datetime + dt * n
+        time = start_datetime + dt * n
+        yield time if zone is None else time.astimezone(zone)
     #end for
 #end datetime_range
 
-- 
2.43.0

