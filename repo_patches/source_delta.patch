From 9e8731976416606a587a35691b8a478b5cafbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:03 +0000
Subject: [PATCH 01/12] fix: evaluate the line-of-sight attenuation for every
 distance of an area sequence

lrprop only set aref in the call that computed the line-of-sight coefficients, so the
second and later line-of-sight distances returned the previous distance's attenuation.
---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From 38538a78649eed1d658d75e4258c0eca5b49f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:03 +0000
Subject: [PATCH 02/12] fix: check the first terminal's own horizon distance
 when setting the warning marker

The upper limit test for terminal 0 compared terminal 1's horizon distance.
---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From 6493725310969dcf846dad41f48177e692ef799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:03 +0000
Subject: [PATCH 03/12] fix: keep the 'scatter undefined' result of ascat

In the inadmissible case (both r1 and r2 below 0.2) the 1001 marker was overwritten by
an extrapolated value, so lrprop never treated the scatter mode as undefined.
---
 src/itmlogic/scatter_attenuation/ascat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..666027b 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -34,6 +34,7 @@ def ascat(d, prop):
 
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
+            return prop
 
         ss = (d - prop['ad']) / (d + prop['ad'])
 
-- 
2.43.0


From a5ad12ad2a46bbd3b7f6b90f296d02ef55eeb2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:03 +0000
Subject: [PATCH 04/12] fix: widen a degenerate fitting interval in zlsq1 at
 its upper end

The upper index was moved down instead of up, which left an empty interval and a division by zero.
---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..8e6bd21 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - xb - 1, 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From 975b0fc557a8c874df1b4882146d0a6ae6b498b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:03 +0000
Subject: [PATCH 05/12] fix: use the receiver's own terrain height on
 line-of-sight paths in qlrpfl

The effective receiver height was taken from the profile point before the last.
---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From 096036cdd385fea77bb96fe20795568b56eaec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 06/12] fix: keep the conductivity in the area runners' surface
 impedance

The square root was taken of the real part only, unlike qlrps and the point-to-point runner.
---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From 70027b880855289cdaa9b8d8f49e32030f12282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 07/12] fix: sample the terrain profile up to the receiver

The sampling points stopped one step short of the end of the path, while the profile is
then spread over the whole path length.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..542ed69 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From 719a5a0ba32af7c2a3643b355260ce9e9735cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 08/12] fix: convert the PIMTER quantile percentages to
 fractions

qerfi takes probabilities; a level of 50 was passed as is and gave a deviate of -4.75 instead of 0.
---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..b252821 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From 2b6108080f7335963b8fd923d2a8a5bc48482091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 09/12] fix: use the profile passed to the PIMTER runner

run_itmlogic ignored its surface_profile_m argument and read a module-level name instead.
---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index b252821..87dd126 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + list(surface_profile_m)
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 3dd37d4ee289fa5b108b704352cc3717eec2a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:17 +0000
Subject: [PATCH 10/12] fix: leave masked cells out of the terrain irregularity
 of an area

---
 scripts/terrain_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 542ed69..3989a05 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,8 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    # np.percentile ignores the mask, so drop masked cells (outside the area, no data)
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From f279f04439ffa3261f2c00c3ea852fa0236c9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:46 +0000
Subject: [PATCH 11/12] fix: make the folder of the two-tile terrain points
 before writing them

---
 scripts/p2p_2tiles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..dddb3fc 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -424,8 +424,11 @@ if __name__ == '__main__':
         'properties': {'elevation': 'float'}
     }
 
+    if not os.path.exists(directory_shapes):
+        os.makedirs(directory_shapes)
+
     crs = from_epsg(4326)
-    with fiona.open('data/processed/shapes/p2p_2tiles.shp',
+    with fiona.open(os.path.join(directory_shapes, 'p2p_2tiles.shp'),
                     'w',
                     driver='ESRI Shapefile',
                     crs=crs,
-- 
2.43.0


From ceccbfec57f4e3e90c85c4baa4fb429f68e7894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:06 +0000
Subject: [PATCH 12/12] fix: classify a path by its horizon distances and
 report its dominant mode

The point-to-point runners compared the path length with the smooth-earth
horizon distances, so that the example path, whose horizons are obstacles
3 km apart, was reported as line of sight; diffraction was reported as the
dominant mode of every line-of-sight path and never beyond the smooth-earth
horizons.
---
 scripts/p2p.py        | 10 +++++-----
 scripts/p2p_2tiles.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..93148e7 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -182,9 +182,9 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
     #Free space loss in db
     fs = db * np.log(2 * prop['wn'] * prop['dist'])
 
-    #Used to classify path based on comparison of current distance to computed
-    #line-of-site distance
-    q = prop['dist'] - prop['dlsa']
+    #Used to classify path based on comparison of current distance to the sum
+    #of the horizon distances
+    q = prop['dist'] - prop['dla']
 
     #Scaling used for this classification
     q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)
@@ -197,9 +197,9 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
+    if q >= 0 and (prop['dist'] <= prop['dlsa'] or prop['dist'] <= prop['dx']):
         print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
+    elif q >= 0:
         print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index dddb3fc..7a2e658 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -180,9 +180,9 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
     #Free space loss in db
     fs = db * np.log(2 * prop['wn'] * prop['dist'])
 
-    #Used to classify path based on comparison of current distance to computed
-    #line-of-site distance
-    q = prop['dist'] - prop['dlsa']
+    #Used to classify path based on comparison of current distance to the sum
+    #of the horizon distances
+    q = prop['dist'] - prop['dla']
 
     #Scaling used for this classification
     q = max(q - 0.5 * pfl[1], 0) - max(-q - 0.5 * pfl[1], 0)
@@ -195,9 +195,9 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
+    if q >= 0 and (prop['dist'] <= prop['dlsa'] or prop['dist'] <= prop['dx']):
         print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
+    elif q >= 0:
         print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
-- 
2.43.0

