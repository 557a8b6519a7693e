From da6b334628c01a12f9b31c25f9440bfba58c09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:54 +0000
Subject: [PATCH 1/7] fix: recompute line-of-sight attenuation for every
 distance of an area session

The attenuation in the line-of-sight range was only evaluated while the
coefficients were being computed, so every later query at a line-of-sight
distance reported the value of an earlier one.
---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From b547ab3aedd1757402e77f9109a773e51953040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:37 +0000
Subject: [PATCH 2/7] fix: pimter.run_itmlogic uses the surface profile it is
 given

It read the terrain from a module global which only exists when the module
runs as a script, so calling the function failed with NameError (or used
whatever profile the global happened to hold).
---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..20a04da 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + surface_profile_m
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 874b45b9d3702dc8dd9a6e6037a15943d5900e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:34 +0000
Subject: [PATCH 3/7] fix: let another run create the output folder first

Between the exists() test and makedirs() a run writing to the same folder may
create it, and this run then died with FileExistsError.
---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 scripts/p2p.py         | 4 ++--
 scripts/p2p_2tiles.py  | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..8ee0de8 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -237,7 +237,7 @@ def csv_writer(data, directory, filename):
     """
     # Create path
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     fieldnames = []
     for name, value in data[0].items():
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..c8b7e09 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -238,7 +238,7 @@ def csv_writer(data, directory, filename):
     """
     # Create path
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     fieldnames = []
     for name, value in data[0].items():
diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..d528dc7 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -246,7 +246,7 @@ def csv_writer(data, directory, filename):
     """
     # Create path
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     fieldnames = []
     for name, value in data[0].items():
@@ -292,7 +292,7 @@ def write_shapefile(data, directory, filename, crs):
     }
 
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     with fiona.open(
         os.path.join(directory, filename), 'w',
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..68bd3da 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -244,7 +244,7 @@ def csv_writer(data, directory, filename):
     """
     # Create path
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     fieldnames = []
     for name, value in data[0].items():
@@ -290,7 +290,7 @@ def write_shapefile(data, directory, filename, crs):
     }
 
     if not os.path.exists(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     with fiona.open(
         os.path.join(directory, filename), 'w',
-- 
2.43.0


From 7df7f6d87764b2ae3b2ea546e43371d2489ceae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:09 +0000
Subject: [PATCH 4/7] fix: write a shapefile over the remains of a killed run

A run killed while writing left empty or partial .shp/.shx/.dbf files, which
GDAL refuses to open and so to overwrite: every later run failed.
---
 scripts/p2p.py        | 6 ++++++
 scripts/p2p_2tiles.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index d528dc7..e0bff55 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -294,6 +294,12 @@ def write_shapefile(data, directory, filename, crs):
     if not os.path.exists(directory):
         os.makedirs(directory, exist_ok=True)
 
+    # Parts left by an earlier run that was cut short cannot be opened, and so not overwritten
+    stem = os.path.splitext(os.path.join(directory, filename))[0]
+    for extension in ('.shp', '.shx', '.dbf', '.prj', '.cpg'):
+        if os.path.exists(stem + extension):
+            os.remove(stem + extension)
+
     with fiona.open(
         os.path.join(directory, filename), 'w',
         driver=sink_driver, crs=sink_crs, schema=sink_schema) as sink:
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 68bd3da..7e7d275 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -292,6 +292,12 @@ def write_shapefile(data, directory, filename, crs):
     if not os.path.exists(directory):
         os.makedirs(directory, exist_ok=True)
 
+    # Parts left by an earlier run that was cut short cannot be opened, and so not overwritten
+    stem = os.path.splitext(os.path.join(directory, filename))[0]
+    for extension in ('.shp', '.shx', '.dbf', '.prj', '.cpg'):
+        if os.path.exists(stem + extension):
+            os.remove(stem + extension)
+
     with fiona.open(
         os.path.join(directory, filename), 'w',
         driver=sink_driver, crs=sink_crs, schema=sink_schema) as sink:
-- 
2.43.0


From 8693c3047257efcc85e9ef2a9220cca0b7a631e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:16 +0000
Subject: [PATCH 5/7] fix: leave masked cells out of the terrain irregularity

np.percentile ignores the mask, so void cells and the cells of the bounding
box outside of the circle were counted (and a masked fill value could fail).
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..a4eb0b5 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From fdc593b8da2acddb5945796e0fda0b8849d9128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:56 +0000
Subject: [PATCH 6/7] fix: p2p_2tiles creates its shapes folder and writes over
 remains of a killed run

It opened data/processed/shapes/p2p_2tiles.shp directly: the run failed unless
another runner had created the folder, and for good once it had been killed
while writing.
---
 scripts/p2p_2tiles.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 7e7d275..9e8b02a 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -425,19 +425,7 @@ if __name__ == '__main__':
     print("Distance is {}km".format(distance_km))
     print("Sampled", len(points), "points")
 
-    schema = {
-        'geometry': 'Point',
-        'properties': {'elevation': 'float'}
-    }
-
-    crs = from_epsg(4326)
-    with fiona.open('data/processed/shapes/p2p_2tiles.shp',
-                    'w',
-                    driver='ESRI Shapefile',
-                    crs=crs,
-                    schema=schema) as fh:
-        for point in points:
-            fh.write(point)
+    write_shapefile(points, directory_shapes, 'p2p_2tiles.shp', old_crs)
     print("Wrote two-tile profile to data/processed/shapes/p2p_2tiles.shp")
 
     #Run model and get output
-- 
2.43.0


From 5a5e36570991cc4eb88731db6bb16b9a31ad5156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:45 +0000
Subject: [PATCH 7/7] fix: raise the climate warning before the climate is
 replaced

An interrupt between the two statements left the default climate in the
record without the warning, and repeating the call did not raise it.
---
 src/itmlogic/statistics/avar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/statistics/avar.py b/src/itmlogic/statistics/avar.py
index 9d46f7c..afcadee 100644
--- a/src/itmlogic/statistics/avar.py
+++ b/src/itmlogic/statistics/avar.py
@@ -65,8 +65,8 @@ def avar(zzt, zzl, zzc, prop):
     if prop['lvar'] > 0:
         if prop['lvar'] > 4:
             if prop['klim'] <= 0 or prop['klim'] > 7:
-                prop['klim'] = 5
                 prop['kwx'] = max(prop['kwx'], 2)
+                prop['klim'] = 5
 
             prop['cv1'] = bv1[prop['klim'] - 1]
             prop['cv2'] = bv2[prop['klim'] - 1]
-- 
2.43.0

