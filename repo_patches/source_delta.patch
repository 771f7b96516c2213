From bb2c52cdeb6022a02f6da6989807874ab81686ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 01/69] fix: panoramic projections of points exactly sideways
 of the camera; do not modify the caller's array

---
 cameratransform/projection.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 67c3425..2f5f8ed 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -396,7 +396,8 @@ class RectilinearProjection(CameraProjection):
                           z                                z
         """
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
+        # set small z distances to 0 (on a copy, to not change the array of the caller)
+        points = points.copy()
         points[np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
@@ -473,8 +474,9 @@ class CylindricalProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        # set small z distances to 0 (on a copy, to not change the array of the caller)
+        points = points.copy()
+        points[..., 2][np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
@@ -551,8 +553,9 @@ class EquirectangularProjection(CameraProjection):
         """
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
-        # set small z distances to 0
-        points[np.abs(points[..., 2]) < 1e-10] = 0
+        # set small z distances to 0 (on a copy, to not change the array of the caller)
+        points = points.copy()
+        points[..., 2][np.abs(points[..., 2]) < 1e-10] = 0
         x, y, z = points.T
         # transform the points
         transformed_points = np.array(
-- 
2.43.0


From c001ac215d483ffbec124d160adcbae87a8246e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 02/69] fix: spaceFromGPS decided from the number of points,
 instead of their dimension, whether there is a height

---
 cameratransform/gps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index b07d937..943f5db 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -459,7 +459,8 @@ def moveDistance(start, distance, bearing):
 
 
 def spaceFromGPS(gps, gps0):
-    if len(gps[..., :]) == 2:
+    gps = np.asarray(gps)
+    if gps.shape[-1] == 2:
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
@@ -469,6 +470,7 @@ def spaceFromGPS(gps, gps0):
 
 
 def gpsFromSpace(space, gps0):
+    space = np.asarray(space)
     bearing = np.rad2deg(np.arctan2(space[..., 0], space[..., 1]))
     distance = np.linalg.norm(space[..., :2], axis=-1)
     target = moveDistance(gps0, distance, bearing)
-- 
2.43.0


From 39010e712025c1a53b97389bfc133734745f7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 03/69] fix: ray_intersect_triangle returns nan points, not
 inf, if there is no intersection

---
 cameratransform/ray.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4554e4d..9087fbe 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -93,6 +93,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
 
     index = nanargmin(rI, axis=0)
     rI = rI[index, np.arange(len(index))]
+    # no intersection
+    rI[np.isinf(rI)] = np.nan
     point = origin + rI[..., None] * direction
 
     if return_single:
-- 
2.43.0


From 7dfb2bdce3de6a921115f130003156d312addb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 04/69] fix: getClosestPointFromLine changed the direction
 array of the caller

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 9087fbe..f5c1a2a 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -325,7 +325,7 @@ def getClosestPointFromLine(origin, ray, point):
     # calculate the difference vector
     delta = point-origin
     # norm the ray
-    ray /= np.linalg.norm(ray, axis=-1)[..., None]
+    ray = ray / np.linalg.norm(ray, axis=-1)[..., None]
     # calculate the scale product
     factor = np.sum(ray*delta, axis=-1)
     try:
-- 
2.43.0


From b4bef48768139ad6a641b8cd33939c657d59ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 05/69] fix: a projection initialized with a field of view
 ignored later changes of the image size

---
 cameratransform/projection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 2f5f8ed..8b64477 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -158,6 +158,9 @@ class CameraProjection(ClassWithParameterSet):
                 if not view_x_deg:
                     focallength_x_px = focallength_y_px
 
+            # remove the temporary attributes, they would hide the parameters of the same name
+            del self.image_width_px, self.image_height_px
+
         if focallength_x_px is None or focallength_y_px is None:
             raise ValueError("Either provide a focal length or a field of view angle.")
 
-- 
2.43.0


From dfe289f81c38737e1422fb5bbf60629c04e34ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 06/69] fix: accept the documented tuple of focal lengths for
 focallength_px

---
 cameratransform/projection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 8b64477..bec5043 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -124,8 +124,11 @@ class CameraProjection(ClassWithParameterSet):
             if focallength_mm is not None:
                 raise ValueError("cannot provide both an focallength_mm and a focallength in px")
             if focallength_px:
-                focallength_x_px = focallength_px
-                focallength_y_px = focallength_px
+                try:
+                    focallength_x_px, focallength_y_px = focallength_px
+                except TypeError:
+                    focallength_x_px = focallength_px
+                    focallength_y_px = focallength_px
 
         if sensor and (sensor_width_mm or sensor_height_mm):
             raise ValueError("cannot provide both an sensor shape tuple and sensor_width_mm or sensor_height_mm")
-- 
2.43.0


From 7896b9c06cccb923c6d2cde8e38565083e3729ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 07/69] fix: sample and set_to_mean reset the focal lengths,
 even if they have no uncertainty

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 45d9283..ff2e0d3 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -189,7 +189,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.sample()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
@@ -207,7 +207,7 @@ class ClassWithParameterSet(object):
             callbacks = set()
             for name, parameter_obj in self.parameters.parameters.items():
                 parameter_obj.set_to_mean()
-                if parameter_obj.callback is not None:
+                if parameter_obj.mean is not None and parameter_obj.callback is not None:
                     callbacks.add(parameter_obj.callback)
             for call in callbacks:
                 call()
-- 
2.43.0


From b4cb1bc9a25c840f885fe4ee89e839b980c5246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 08/69] fix: the baseline is the distance between both cameras,
 it includes the difference in elevation

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b5d4765..ded2367 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -213,7 +213,7 @@ class CameraGroup(ClassWithParameterSet):
                         zip(range(self.N), itertools.cycle(self.projection_list), itertools.cycle(self.orientation_list), itertools.cycle(self.lens_list))]
 
     def getBaseline(self) -> float:
-        return np.sqrt((self[0].pos_x_m-self[1].pos_x_m)**2 + (self[0].pos_y_m-self[1].pos_y_m)**2)
+        return np.linalg.norm(self[0].getPos() - self[1].getPos())
 
     def spaceFromImages(self, points1: Points2D, points2: Points2D) -> Points3D:
         points1, points2 = ensure_array_format(points1, "...x2", points2)
-- 
2.43.0


From 6eed16d72609fae51f93b6479af8493e09cc4255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 09/69] fix: scaleSpace scaled an orientation shared by the
 cameras of the group repeatedly

---
 cameratransform/camera.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index ded2367..013ddb3 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -421,8 +421,9 @@ class CameraGroup(ClassWithParameterSet):
             plt.imshow(im2)
 
     def scaleSpace(self, scale):
-        for cam in self:
-            cam.pos_x_m, cam.pos_y_m, cam.elevation_m = np.array([cam.pos_x_m, cam.pos_y_m, cam.elevation_m]) * scale
+        # iterate over the orientations, as they might be shared between cameras
+        for orientation in self.orientation_list:
+            orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m = np.array([orientation.pos_x_m, orientation.pos_y_m, orientation.elevation_m]) * scale
 
 
 class Camera(ClassWithParameterSet):
-- 
2.43.0


From a264712f6b4f12f18a22b4654cf39e28f0021ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:03 +0000
Subject: [PATCH 10/69] fix: accept arrays as the variation of object heights
 and lengths, as documented

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 013ddb3..5d01516 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -534,7 +534,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
                 def heigthInformation(points_feet=points_feet, points_head=points_head, height=height,
                                       variation=variation):
@@ -602,7 +602,7 @@ class Camera(ClassWithParameterSet):
             when true, the information will be ignored for fitting and only be used to plot.
         """
         if not only_plot:
-            if not isinstance(variation, (float, int)):
+            if hasattr(variation, "value"):
                 self.additional_parameters += [variation]
 
                 def lengthInformation(points_front=points_front, points_back=points_back, length=length,
-- 
2.43.0


From 51a72178bc70930652557fbb93289c8586f90a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 11/69] fix: getCameraParametersFromExif with the rational
 numbers of current PIL versions and without the database

---
 cameratransform/camera.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 5d01516..aa96861 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -150,16 +150,23 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
 
     # read the exif information of the file
     exif = get_exif(filename)
+    def to_number(value):
+        # older versions of PIL return rational numbers as a tuple
+        if isinstance(value, tuple):
+            return value[0] / value[1]
+        return float(value)
+
     # get the focal length
-    f = exif["FocalLength"][0] / exif["FocalLength"][1]
+    f = to_number(exif["FocalLength"])
     # get the sensor size, either from a database
+    sensor_size = None
     if sensor_from_database:
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
         sensor_size = (
-            exif["ExifImageWidth"] / (exif["FocalPlaneXResolution"][0] / exif["FocalPlaneXResolution"][1]) * 25.4,
-            exif["ExifImageHeight"] / (exif["FocalPlaneYResolution"][0] / exif["FocalPlaneYResolution"][1]) * 25.4)
+            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * 25.4,
+            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * 25.4)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 46b939bf480c462e3f0f98160b97b4aeb2a2f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 12/69] fix: a failed download of the sensor database left an
 empty database behind

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index aa96861..4c12409 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -72,9 +72,9 @@ def _getSensorFromDatabase(model: str) -> Optional[Tuple[float, float]]:
     database_filename = "sensor_database_detailed.csv"
     # download the database if it is not there
     if not os.path.exists(database_filename):
+        print("Downloading database from:", url)
+        r = requests.get(url)
         with open(database_filename, "w") as fp:
-            print("Downloading database from:", url)
-            r = requests.get(url)
             fp.write(r.text)
     # load the database
     with open(database_filename, "r") as fp:
-- 
2.43.0


From 3d6015fabc6221dcd9bb2c17d470073f933de828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 13/69] fix: moveDistance returned nan when moving to a pole

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 943f5db..0a8ee15 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -448,8 +448,8 @@ def moveDistance(start, distance, bearing):
     R = 6371e3
     if start.shape[-1] == 3:
         R += start[..., 2]
-    lat2 = np.arcsin(np.sin(lat1) * np.cos(distance / R) +
-                     np.cos(lat1) * np.sin(distance / R) * np.cos(bearing))
+    lat2 = np.arcsin(np.clip(np.sin(lat1) * np.cos(distance / R) +
+                             np.cos(lat1) * np.sin(distance / R) * np.cos(bearing), -1, 1))
 
     lon2 = lon1 + np.arctan2(np.sin(bearing) * np.sin(distance / R) * np.cos(lat1),
                              np.cos(distance / R) - np.sin(lat1) * np.sin(lat2))
-- 
2.43.0


From b7fb87eb4e600376211a0fe020d5666ec196d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 14/69] =?UTF-8?q?fix:=20gpsFromString=20did=20not=20recogn?=
 =?UTF-8?q?ize=20the=20documented=20minute=20symbol=20=E2=80=99?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cameratransform/gps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 0a8ee15..ec01b21 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -252,8 +252,8 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
             return data
         else:
             return np.hstack((data, [height]))
-    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|′)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|′)?\s*",
+    regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
+                  r"(?P<deg>[\d+-]+)°\s*(?P<min>[\d.]+)('|′|´|’)?\s*",
                   r"(?P<deg>[\d.+-]+)°\s*"]
     for string in regex_list:
         pattern = r"\s*"+string.replace("<", "<lat_")+"(?P<lat_sign>N|S)?"+r"\s*,?\s*"+string.replace("<", "<lon_")+"(?P<lon_sign>W|E)?"+r"\s*"
-- 
2.43.0


From 2812f7e201d92b1b5b35ab50395120a747cb2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 15/69] fix: intersectionOfTwoLines returned a list if one pair
 of lines of a batch is parallel

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index f5c1a2a..8f725b1 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -139,7 +139,7 @@ def intersectionOfTwoLines(p1, v1, p2, v2):
             res = np.linalg.solve(np.array([[a1, b1], [a2, b2]]).transpose(2, 0, 1), np.array([c1, c2]).T[..., None])
             return np.mean([p1 + res[:, 0, 0, None] * v1, p2 + res[:, 1, 0, None] * v2], axis=0)
         except np.linalg.LinAlgError:
-            return [__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))]
+            return np.array([__intersectionOfTwoLines(p1, v1[i], p2, v2[i]) for i in range(len(v1))])
     else:  # or just one point
         return __intersectionOfTwoLines(p1, v1, p2, v2)
 
-- 
2.43.0


From 72672eedfa3d2406b68b4d38769e34fbdaf3fc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 16/69] fix: metropolis proposed positions outside of the
 ranges after adapting the step size

---
 cameratransform/statistic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 6904ee5..a3134af 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -105,7 +105,8 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
 
             # draw a new position
             # next_pos = last_pos + np.random.normal(0, step*adaptive_scale_factor, N)
-            next_pos = last_pos + adaptive_scale_factor*step*truncnorm((ranges[:,0]-last_pos)/step, (ranges[:,1]-last_pos)/step).rvs()
+            scaled_step = adaptive_scale_factor*step
+            next_pos = last_pos + scaled_step*truncnorm((ranges[:,0]-last_pos)/scaled_step, (ranges[:,1]-last_pos)/scaled_step).rvs()
             # get the probability
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
-- 
2.43.0


From fde63df1b8468d05c375701891783b1bcf51715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 17/69] fix: metropolis with additional fit parameters, e.g. an
 unknown variation of the object height

---
 cameratransform/parameter_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index ff2e0d3..0b6fca2 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -297,7 +297,7 @@ class ClassWithParameterSet(object):
             start.append(param.value[()])
             ranges.append([param.parents.get("lower"), param.parents.get("upper")])
         start = np.array(start)
-        step = step*np.array([p.step for p in parameter])
+        step = step*np.array([p.step for p in list(parameter) + self.additional_parameters])
 
         def getLogProb(position):
             self.parameters.set_fit_parameters(parameter_names, position[:len(parameter_names)])
@@ -308,7 +308,7 @@ class ClassWithParameterSet(object):
         trys = 0
         max_tries = 1000
         while np.isinf(getLogProb(start)) and trys < max_tries:
-            start = [param.random()[()] for param in parameter+self.additional_parameters]
+            start = np.array([param.random() for param in list(parameter)+self.additional_parameters])
             trys += 1
         if trys >= max_tries:
             raise ValueError("Could not find a starting position with non-zero probability.")
-- 
2.43.0


From 1482fda70d4c636456cabe62a0ae7d88deb06709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 18/69] fix: the lens distortions mapped the center of the
 image to nan

---
 cameratransform/lens_distortion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 3dc2588..57c4ffc 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -156,7 +156,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -168,7 +168,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -250,7 +250,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -262,6 +262,6 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / r * self._convert_radius(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius(r)
         # rescale back to the image
         return points * self.scale + self.offset
-- 
2.43.0


From 975fbae345d96434b5ee749eff3964a220991d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:35 +0000
Subject: [PATCH 19/69] fix: the inverse of the lens distortion mixed several
 branches of a not monotonic distortion

---
 cameratransform/lens_distortion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 57c4ffc..ce1d87e 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -25,9 +25,11 @@ def invert_function(x, func):
     from scipy import interpolate
     from scipy.interpolate import dfitpack
     y = func(x)
-    dy = np.concatenate(([0], np.diff(y)))
-    y = y[dy>=0]
-    x = x[dy>=0]
+    # only the first monotonically increasing part of the function can be inverted
+    decreasing = np.flatnonzero(np.diff(y) <= 0)
+    if len(decreasing):
+        y = y[:decreasing[0]+1]
+        x = x[:decreasing[0]+1]
     try:
         inter = interpolate.InterpolatedUnivariateSpline(y, x)
     # dfitpack.error
-- 
2.43.0


From fea25fc37b1b7130961401eec057df2c45fbcb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 20/69] fix: the inverse of the lens distortion was not sampled
 up to the corners of the image

---
 cameratransform/lens_distortion.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index ce1d87e..41b1190 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -63,6 +63,14 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def setProjection(self, projection):
         pass
 
+    def _getInverseRadii(self):
+        # the radii where the distortion is sampled to invert it, they have to cover the whole image
+        r_max = 2
+        if self.projection is not None:
+            corners = np.array([[x, y] for x in [0, self.projection.image_width_px] for y in [0, self.projection.image_height_px]])
+            r_max = np.max([r_max, 2 * np.max(np.linalg.norm((corners - self.offset) / self.scale, axis=-1))])
+        return np.linspace(0, r_max, 400)
+
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
@@ -141,11 +149,10 @@ class BrownLensDistortion(LensDistortion):
         self._init_inverse()
 
     def _init_inverse(self):
-        r = np.arange(0, 2, 0.1)
-        self._convert_radius_inverse = invert_function(r, self._convert_radius)
         if self.projection is not None:
             self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
             self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+        self._convert_radius_inverse = invert_function(self._getInverseRadii(), self._convert_radius)
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
@@ -234,12 +241,10 @@ class ABCDistortion(LensDistortion):
 
     def _init_inverse(self):
         self.d = 1 - self.a - self.b - self.c
-        r = np.arange(0, 2, 0.1)
-        self._convert_radius_inverse = invert_function(r, self._convert_radius)
-
         if self.projection is not None:
             self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
             self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+        self._convert_radius_inverse = invert_function(self._getInverseRadii(), self._convert_radius)
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
-- 
2.43.0


From c5e871dbbcb9aacb3c60fcbf93eb1e4f98d4e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 21/69] fix: two lenses sharing a projection, only one of them
 followed changes of the projection

---
 cameratransform/lens_distortion.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 41b1190..9a5bd47 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -63,6 +63,18 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def setProjection(self, projection):
         pass
 
+    def _getProjectionState(self):
+        # the parameters of the projection the lens distortion depends on
+        if self.projection is None:
+            return None
+        names = ["image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px"]
+        return [getattr(self.projection, name) for name in names]
+
+    def _checkProjection(self):
+        # with a projection shared by several lenses, only the last one is notified of changed projection parameters
+        if self._projection_state != self._getProjectionState():
+            self._init_inverse()
+
     def _getInverseRadii(self):
         # the radii where the distortion is sampled to invert it, they have to cover the whole image
         r_max = 2
@@ -152,12 +164,14 @@ class BrownLensDistortion(LensDistortion):
         if self.projection is not None:
             self.scale = np.array([self.projection.focallength_x_px, self.projection.focallength_y_px])
             self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+        self._projection_state = self._getProjectionState()
         self._convert_radius_inverse = invert_function(self._getInverseRadii(), self._convert_radius)
 
     def _convert_radius(self, r):
         return r*(1 + self.parameters.k1*r**2 + self.parameters.k2*r**4 + self.parameters.k3*r**6)
 
     def imageFromDistorted(self, points):
+        self._checkProjection()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -170,6 +184,7 @@ class BrownLensDistortion(LensDistortion):
         return points * self.scale + self.offset
 
     def distortedFromImage(self, points):
+        self._checkProjection()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -244,12 +259,14 @@ class ABCDistortion(LensDistortion):
         if self.projection is not None:
             self.scale = np.min([self.projection.image_width_px, self.projection.image_height_px]) / 2
             self.offset = np.array([self.projection.center_x_px, self.projection.center_y_px])
+        self._projection_state = self._getProjectionState()
         self._convert_radius_inverse = invert_function(self._getInverseRadii(), self._convert_radius)
 
     def _convert_radius(self, r):
         return self.d * r + self.c * r**2 + self.b * r**3 + self.a * r**4
 
     def imageFromDistorted(self, points):
+        self._checkProjection()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
@@ -262,6 +279,7 @@ class ABCDistortion(LensDistortion):
         return points * self.scale + self.offset
 
     def distortedFromImage(self, points):
+        self._checkProjection()
         # ensure that the points are provided as an array
         # and rescale the points to that the center is at 0 and the border at 1
         points = (np.array(points)-self.offset)/self.scale
-- 
2.43.0


From 9a2b27ba76db19fcaa6197222a958fe26828fb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 22/69] fix: a lens shared by cameras with different
 projections used the projection of the last camera

---
 cameratransform/camera.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4c12409..083f565 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -466,6 +466,12 @@ class Camera(ClassWithParameterSet):
         params.update(self.lens.parameters.parameters)
         self.parameters = ParameterSet(**params)
 
+    def _getLens(self):
+        # a lens distortion shared with a camera with a different projection
+        if getattr(self.lens, "projection", self.projection) is not self.projection:
+            self.lens.setProjection(self.projection)
+        return self.lens
+
     def __str__(self):
         string = "CameraTransform(\n"
         string += str(self.lens)
@@ -1010,7 +1016,7 @@ class Camera(ClassWithParameterSet):
         # ensure that the points are provided as an array
         points = ensure_array_format(points, "...x3")
         # project the points from the space to the camera and from the camera to the image
-        return self.lens.distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
+        return self._getLens().distortedFromImage(self.projection.imageFromCamera(self.orientation.cameraFromSpace(points), hide_backpoints=hide_backpoints))
 
     def getRay(self, points: Points2D, normed: bool = False) -> Tuple[Points3D, Points3D]:
         """
@@ -1059,7 +1065,7 @@ class Camera(ClassWithParameterSet):
         offset = self.orientation.spaceFromCamera([0, 0, 0])
         # get the direction fo the ray from the points
         # the projection provides the ray in camera coordinates, which we convert to the space coordinates
-        direction = self.orientation.spaceFromCamera(self.projection.getRay(self.lens.imageFromDistorted(points), normed=normed), direction=True)
+        direction = self.orientation.spaceFromCamera(self.projection.getRay(self._getLens().imageFromDistorted(points), normed=normed), direction=True)
         # return the offset point and the direction of the ray
         return offset, direction
 
@@ -1308,7 +1314,7 @@ class Camera(ClassWithParameterSet):
         mesh_points = mesh.reshape(2, mesh.shape[1] * mesh.shape[2]).T
 
         # transform the space points to the image
-        mesh_points_shape = self.lens.distortedFromImage(mesh_points)
+        mesh_points_shape = self._getLens().distortedFromImage(mesh_points)
 
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
-- 
2.43.0


From c2488c6131c1607316930ded35967746e9b72e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 23/69] fix: setGPSpos with an array ignored the elevation
 argument and the camera could not be saved afterwards

---
 cameratransform/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 083f565..ef4eab5 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -517,7 +517,10 @@ class Camera(ClassWithParameterSet):
         else:
             # if it is a tuple
             try:
-                lat, lon, elevation = gps.splitGPS(lat, keep_deg=True)
+                lat, lon, height = gps.splitGPS(lat, keep_deg=True)
+                lat, lon = lat.item(), lon.item()
+                if height is not None:
+                    elevation = height.item()
             # or if it is just a single value
             except (AttributeError, Exception):
                 pass
-- 
2.43.0


From 9639b118b4e4a015910245ea4362fda127982e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:33 +0000
Subject: [PATCH 24/69] fix: save with parameters that are numpy numbers raised
 an error and left a truncated file

---
 cameratransform/camera.py          | 4 +++-
 cameratransform/lens_distortion.py | 4 +++-
 cameratransform/projection.py      | 4 +++-
 cameratransform/spatial.py         | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index ef4eab5..f8e5a8c 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1563,8 +1563,10 @@ class Camera(ClassWithParameterSet):
         elif isinstance(self.lens, BrownLensDistortion):
             export_dict["lens"] = BROWNLENSDISTORTION
 
+        # numpy numbers have to be converted
+        string = json.dumps(export_dict, indent=4, default=lambda value: value.item())
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict, indent=4))
+            fp.write(string)
 
     def load(self, filename: str):
         """
diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 9a5bd47..2bdcf9a 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -86,8 +86,10 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # numpy numbers have to be converted
+        string = json.dumps(export_dict, default=lambda value: value.item())
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(string)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index bec5043..0ed8716 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -216,8 +216,10 @@ class CameraProjection(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys if key != "focallength_px"}
+        # numpy numbers have to be converted
+        string = json.dumps(export_dict, default=lambda value: value.item())
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(string)
 
     def load(self, filename):
         with open(filename, "r") as fp:
diff --git a/cameratransform/spatial.py b/cameratransform/spatial.py
index e1ab01c..d1bd02d 100644
--- a/cameratransform/spatial.py
+++ b/cameratransform/spatial.py
@@ -205,8 +205,10 @@ class SpatialOrientation(ClassWithParameterSet):
     def save(self, filename):
         keys = self.parameters.parameters.keys()
         export_dict = {key: getattr(self, key) for key in keys}
+        # numpy numbers have to be converted
+        string = json.dumps(export_dict, default=lambda value: value.item())
         with open(filename, "w") as fp:
-            fp.write(json.dumps(export_dict))
+            fp.write(string)
 
     def load(self, filename):
         with open(filename, "r") as fp:
-- 
2.43.0


From 0d0f0879997326e7490f5d7221fe6b602d29d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 25/69] fix: after loading a camera its parameter
 focallength_px was always 100

---
 cameratransform/camera.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f8e5a8c..88e0b1a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1580,16 +1580,17 @@ class Camera(ClassWithParameterSet):
         with open(filename, "r") as fp:
             variables = json.loads(fp.read())
 
+        focallength_px = variables.get("focallength_x_px", 100)
         if "projection" in variables.keys():
             if variables["projection"] == RECTILINEAR:
-                projection = RectilinearProjection(image=(100, 50), focallength_px=100)
+                projection = RectilinearProjection(image=(100, 50), focallength_px=focallength_px)
             elif variables["projection"] == CYLINDRICAL:
-                projection = CylindricalProjection(image=(100, 50), focallength_px=100)
+                projection = CylindricalProjection(image=(100, 50), focallength_px=focallength_px)
             elif variables["projection"] == EQUIRECTANGULAR:
-                projection = EquirectangularProjection(image=(100, 50), focallength_px=100)
+                projection = EquirectangularProjection(image=(100, 50), focallength_px=focallength_px)
             variables.pop("projection")
         else:
-            projection = RectilinearProjection(image=(100, 50), focallength_px=100)
+            projection = RectilinearProjection(image=(100, 50), focallength_px=focallength_px)
 
         if "lens" in variables.keys():
             if variables["lens"] == NODISTORTION:
-- 
2.43.0


From a46dd54d6dea39ac5ba954492339ef3aaf30e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 26/69] fix: loading a camera lost an orientation given by yaw,
 pitch and roll

---
 cameratransform/camera.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 88e0b1a..b6ea51d 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -26,7 +26,7 @@ from typing import Union, Optional, Tuple, List
 from numbers import Number
 from .parameter_set import ParameterSet, ClassWithParameterSet, Parameter, TYPE_GPS
 from .projection import RectilinearProjection, EquirectangularProjection, CylindricalProjection, CameraProjection
-from .spatial import SpatialOrientation
+from .spatial import SpatialOrientation, SpatialOrientationYawPitchRoll
 from .lens_distortion import NoDistortion, LensDistortion, ABCDistortion, BrownLensDistortion
 from . import gps
 from . import ray
@@ -1602,7 +1602,11 @@ class Camera(ClassWithParameterSet):
             variables.pop("lens")
         else:
             lens = None
-        self.__init__(projection=projection, lens=lens, orientation=SpatialOrientation())
+        if "yaw_deg" in variables.keys():
+            orientation = SpatialOrientationYawPitchRoll()
+        else:
+            orientation = SpatialOrientation()
+        self.__init__(projection=projection, lens=lens, orientation=orientation)
         for key in variables:
             setattr(self, key, variables[key])
 
-- 
2.43.0


From 9fd042aff6898315ff420b9abfce24b65b6b6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 27/69] fix: areaOfTriangle of degenerate triangles and of a
 batch of triangles

---
 cameratransform/ray.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 8f725b1..df3073e 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -248,12 +248,12 @@ def areaOfTriangle(triangle):
     area : float
         the area of the triangle.
     """
-    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :])
-    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :])
-    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :])
+    a = np.linalg.norm(triangle[..., 0, :] - triangle[..., 1, :], axis=-1)
+    b = np.linalg.norm(triangle[..., 1, :] - triangle[..., 2, :], axis=-1)
+    c = np.linalg.norm(triangle[..., 2, :] - triangle[..., 0, :], axis=-1)
     s = (a+b+c)/2
     # Herons formula
-    return np.sqrt(s*(s-a)*(s-b)*(s-c))
+    return np.sqrt(np.maximum(s*(s-a)*(s-b)*(s-c), 0))
 
 
 def areaOfQuadrilateral(rect):
-- 
2.43.0


From 0ba6d155dc1ba15cb8c8c6499ff26eee88d1a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:52 +0000
Subject: [PATCH 28/69] =?UTF-8?q?fix:=20formatGPS=20lost=20the=20sign=20of?=
 =?UTF-8?q?=20coordinates=20between=20-1=C2=B0=20and=200=C2=B0=20for=20for?=
 =?UTF-8?q?mats=20with=20integer=20degrees?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cameratransform/gps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index ec01b21..28b32dc 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -147,6 +147,10 @@ def formatGPS(lat, lon, format=None, asLatex=False):
                 fills.append(values.pop(0))
         # format the string
         string = format % tuple(fills)
+        # an integer format does not show the sign of values between -1 and 0
+        if not use_letter and neg and fmt_degs[-1] == "d" and abs(degs) < 1:
+            start = format.index(fmt_degs)
+            string = string[:start] + string[start:].replace("0", "-0", 1)
         # replace, if desired the degree sign
         if asLatex:
             string = string.replace("°", "\N{DEGREE SIGN}")
-- 
2.43.0


From 729a164b48b5bc8909dfa7f61e4aa080e7908542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:29 +0000
Subject: [PATCH 29/69] fix: getObjectHeight returned nan or an arbitrary
 height for objects exactly in x or y direction of the camera

---
 cameratransform/camera.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index b6ea51d..3e3211a 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1260,12 +1260,14 @@ class Camera(ClassWithParameterSet):
         point_feet, point_heads = ensure_array_format(point_feet, "...x2", point_heads)
         # get the feet positions in the world
         point3D_feet = self.spaceFromImage(point_feet, Z=Z)
-        # get the head positions in the world
-        point3D_head1 = self.spaceFromImage(point_heads, Y=point3D_feet[..., 1])
-        point3D_head2 = self.spaceFromImage(point_heads, X=point3D_feet[..., 0])
-        point3D_head = np.mean([point3D_head1, point3D_head2], axis=0)
+        # get the head positions in the world, the points on the rays which are horizontally closest to the feet
+        offset, direction = self.getRay(point_heads)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            factor = np.sum((point3D_feet - offset)[..., :2] * direction[..., :2], axis=-1) / np.sum(direction[..., :2] ** 2, axis=-1)
+        # ignore points that are behind the camera
+        factor = np.where(factor < 0, np.nan, factor)
         # the z difference between these two points
-        return point3D_head[..., 2] - point3D_feet[..., 2]
+        return offset[2] + factor * direction[..., 2] - point3D_feet[..., 2]
 
     def getObjectLength(self, point_front: Points2D, point_back: Points2D, Z: Points1D = 0) -> Points1D:
         """
-- 
2.43.0


From 38c59f94bdc5b7e1a22e6953525816309c7b828b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:42 +0000
Subject: [PATCH 30/69] fix: the cached maps for the top view and for
 undistorting images did not follow changes of the camera, Z or
 hide_backpoints

---
 cameratransform/camera.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 3e3211a..040a98b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -442,10 +442,12 @@ class Camera(ClassWithParameterSet):
     map = None
     last_extent = None
     last_scaling = None
+    last_state = None
 
     map_undistort = None
     last_extent_undistort = None
     last_scaling_undistort = None
+    last_state_undistort = None
 
     R_earth = 6371e3
 
@@ -1296,6 +1298,14 @@ class Camera(ClassWithParameterSet):
         # the z difference between these two points
         return np.linalg.norm(point3D_front - point3D_back, axis=-1)
 
+    def _getParameterState(self):
+        # everything the cached maps depend on
+        state = []
+        for part in [self.projection, self.orientation, self.lens]:
+            state.append(type(part))
+            state.extend([getattr(part.parameters, name) for name in part.parameters.parameters])
+        return state
+
     def _getUndistortMap(self, extent=None, scaling=None):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
@@ -1306,9 +1316,11 @@ class Camera(ClassWithParameterSet):
             scaling = 1
 
         # if we have cached the map, use the cached map
+        state = self._getParameterState()
         if self.map_undistort is not None and \
-                self.last_extent_undistort == extent and \
-                self.last_scaling_undistort == scaling:
+                self.last_extent_undistort == list(extent) and \
+                self.last_scaling_undistort == scaling and \
+                self.last_state_undistort == state:
             return self.map_undistort
 
         # get a mesh grid
@@ -1324,8 +1336,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map_undistort = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent_undistort = extent
+        self.last_extent_undistort = list(extent)
         self.last_scaling_undistort = scaling
+        self.last_state_undistort = state
 
         # return the calculated map
         return self.map_undistort
@@ -1389,9 +1402,11 @@ class Camera(ClassWithParameterSet):
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
         # if we have cached the map, use the cached map
+        state = self._getParameterState() + [Z, hide_backpoints]
         if self.map is not None and \
-                all(self.last_extent == np.array(extent)) and \
-                (self.last_scaling == scaling):
+                self.last_extent == list(extent) and \
+                self.last_scaling == scaling and \
+                self.last_state == state:
             return self.map
 
         # if no scaling is given, scale so that the resulting image has an equal amount of pixels as the original image
@@ -1413,8 +1428,9 @@ class Camera(ClassWithParameterSet):
         # reshape the map and cache it
         self.map = mesh_points_shape.T.reshape(mesh.shape).astype(np.float32)[:, ::-1, :]
 
-        self.last_extent = extent
+        self.last_extent = list(extent)
         self.last_scaling = scaling
+        self.last_state = state
 
         # return the calculated map
         return self.map
-- 
2.43.0


From 40252fbf97874f71f6a197a51d2ce4488a7dc69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 31/69] fix: distanceOfTwoLines treated lines with short
 direction vectors as parallel

---
 cameratransform/ray.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index df3073e..509fc72 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -210,15 +210,15 @@ def __distanceOfTwoLines(p1, v1, p2, v2):
 
     # Check if lines are parallel (or coincident)
     # If the cross product is zero (or very close to zero), the lines are parallel.
-    if np.isclose(norm_v1_cross_v2, 0):
+    if norm_v1_cross_v2 <= 1e-8 * np.linalg.norm(v1) * np.linalg.norm(v2):
         # Lines are parallel (or coincident).
         # The distance is the shortest distance from a point on one line to the other line.
         # This is given by: d = |(p2 - p1) x v1| / |v1|
         norm_v1 = np.linalg.norm(v1)
-        if np.isclose(norm_v1, 0):
+        if norm_v1 == 0:
             # This means v1 is a zero vector.
             # If v2 is also zero, we have two points. Distance is between p1 and p2.
-            if np.isclose(np.linalg.norm(v2), 0):
+            if np.linalg.norm(v2) == 0:
                 return np.linalg.norm(p1p2)
             else:  # v1 is zero, v2 is not. p1 is a point, L2 is a line.
                 return np.linalg.norm(np.cross(p1p2, v2)) / np.linalg.norm(v2)
-- 
2.43.0


From 4d80b0fc27cf8bb91fbad252e8d56ba38f08b855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 32/69] fix: fit and metropolis with a FitParameter with a
 custom distribution

---
 cameratransform/statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index a3134af..8f48bf4 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -271,6 +271,7 @@ class FitParameter:
 
     def __init__(self, name, distribution=None, lower=None, upper=None, step=1, value=None, mean=None, std=None):
         self.__name__ = name
+        self.parents = dict()
         if distribution is not None:
             self.distribution = distribution
         elif lower is not None and upper is not None:
-- 
2.43.0


From fd745e0cabe5a0816fb7d569479d54fa651d38b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 33/69] fix: the inverse of the lens distortion was too coarse
 for cameras with a long focal length

---
 cameratransform/lens_distortion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index 2bdcf9a..f19c922 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -80,8 +80,12 @@ class LensDistortion(ClassWithParameterSet):  # pragma: no cover
         r_max = 2
         if self.projection is not None:
             corners = np.array([[x, y] for x in [0, self.projection.image_width_px] for y in [0, self.projection.image_height_px]])
-            r_max = np.max([r_max, 2 * np.max(np.linalg.norm((corners - self.offset) / self.scale, axis=-1))])
-        return np.linspace(0, r_max, 400)
+            r_max = 2 * np.max(np.linalg.norm((corners - self.offset) / self.scale, axis=-1))
+        radii = np.linspace(0, r_max, 400)
+        # for points far outside of the image of a camera with a long focal length, a coarser sampling is sufficient
+        if r_max < 1:
+            radii = np.append(radii, np.linspace(r_max, 2, 100)[1:])
+        return radii
 
     def save(self, filename):
         keys = self.parameters.parameters.keys()
-- 
2.43.0


From f418a13c64672c8962f6ff81b1134e64c9d5536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:05 +0000
Subject: [PATCH 34/69] fix: undistorting an empty list of points raised an
 error

---
 cameratransform/lens_distortion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/lens_distortion.py b/cameratransform/lens_distortion.py
index f19c922..1c21846 100644
--- a/cameratransform/lens_distortion.py
+++ b/cameratransform/lens_distortion.py
@@ -185,7 +185,7 @@ class BrownLensDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r).reshape(r.shape)
         # rescale back to the image
         return points * self.scale + self.offset
 
@@ -280,7 +280,7 @@ class ABCDistortion(LensDistortion):
         r = np.linalg.norm(points, axis=-1)[..., None]
         # transform the points
         with np.errstate(divide='ignore', invalid='ignore'):
-            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r)
+            points = points / np.where(r == 0, 1, r) * self._convert_radius_inverse(r).reshape(r.shape)
         # rescale back to the image
         return points * self.scale + self.offset
 
-- 
2.43.0


From 60f7c76323540a9e7b3aa7662cd0bb3b10cc79bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:04 +0000
Subject: [PATCH 35/69] fix: the wall of extrudeLine had a hole, its two
 triangles overlapped

---
 cameratransform/ray.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 509fc72..4923499 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -299,7 +299,7 @@ def extrudeLine(points, z0, z1):
         point = list(point)
         if last_point is not None:
             mesh.append([point + [z0], last_point + [z0], point + [z1]])
-            mesh.append([point + [z0], last_point + [z0], last_point + [z1]])
+            mesh.append([point + [z1], last_point + [z0], last_point + [z1]])
         last_point = point
     return np.array(mesh)
 
-- 
2.43.0


From e774b8b1aaee935e1d773bafcc0128cede140030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 36/69] fix: formatGPS with a letter symbol raised an error for
 coordinates that are numpy numbers

---
 cameratransform/gps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 28b32dc..ce99960 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -141,7 +141,7 @@ def formatGPS(lat, lon, format=None, asLatex=False):
         for entry in match:
             # the letter symbol
             if entry[-1] == "s":
-                fills.append(letters[neg])
+                fills.append(letters[int(neg)])
             # one of the values
             else:
                 fills.append(values.pop(0))
-- 
2.43.0


From 7f00eea41bea786f287cfb79d9b08557d6ec1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 37/69] fix: setCameraParametersByPointCorrespondence set a
 wrong heading, roll and position of the second camera

---
 cameratransform/camera.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 040a98b..0835c19 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -316,12 +316,16 @@ class CameraGroup(ClassWithParameterSet):
         cam1.roll_deg = 0
 
         def rotationToEuler(R):
-            alpha = np.rad2deg(np.arctan2(R[0, 2], -R[1, 2]))
-            beta = np.rad2deg(np.arccos(R[2, 2]))
-            gamma = np.rad2deg(np.arctan2(R[2, 0], R[2, 1]))
-            return np.array([180 + alpha, beta, 180 + gamma])
+            heading = np.arctan2(R[2, 0], -R[2, 1])
+            tilt = np.arctan2(np.hypot(R[2, 0], R[2, 1]), R[2, 2])
+            # the roll relative to the heading, as the heading is arbitrary for a camera looking straight down
+            s, c = np.sin(heading), np.cos(heading)
+            roll = np.arctan2(R[1, 0] * c + R[1, 1] * s, R[0, 0] * c + R[0, 1] * s)
+            return np.rad2deg([roll, tilt, heading])
 
         roll, tilt, heading = rotationToEuler(rot)
+        # the position of the second camera, from the coordinate system of opencv (y down, z forward) to space coordinates
+        t = np.array([[1], [-1], [-1]]) * np.dot(rot.T, -t)
         data = dict(roll_deg=roll,
                     tilt_deg=tilt,
                     heading_deg=heading,
-- 
2.43.0


From 11ffce2557b045e9e0f8d96bc23c3b81cc84ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:21 +0000
Subject: [PATCH 38/69] fix: addPointCorrespondenceInformation gave a zero
 probability if a point on the ray is behind the other camera

---
 cameratransform/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 0835c19..f792d1b 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -262,8 +262,8 @@ class CameraGroup(ClassWithParameterSet):
                 # get the ray from the correspondences in the first camera's image
                 world_epipole, world_ray = self[i].getRay(corresponding[i])
                 # project them to the image of the second camera
-                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1)
-                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2)
+                p1 = self[1 - i].imageFromSpace(world_epipole + world_ray * 1, hide_backpoints=False)
+                p2 = self[1 - i].imageFromSpace(world_epipole + world_ray * 2, hide_backpoints=False)
                 # find the perpendicular point from the epipolar lines to the correspondes point
                 perpendicular_point = ray.getClosestPointFromLine(p1, p2 - p1, corresponding[1 - i])
                 # calculate the distances
-- 
2.43.0


From 90785a5518c51690428e51b48735dc92ad375542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:29 +0000
Subject: [PATCH 39/69] fix: rotateSpace raised an error for cameras oriented
 by yaw, pitch and roll

---
 cameratransform/camera.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f792d1b..dd33360 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1551,7 +1551,10 @@ class Camera(ClassWithParameterSet):
         delta_heading : number
             the number of degrees to rotate the camera clockwise.
         """
-        self.heading_deg += delta_heading
+        if isinstance(self.orientation, SpatialOrientationYawPitchRoll):
+            self.yaw_deg += delta_heading
+        else:
+            self.heading_deg += delta_heading
         delta_heading_rad = np.deg2rad(delta_heading)
         pos = np.array([self.pos_x_m, self.pos_y_m])
         s, c = np.sin(delta_heading_rad), np.cos(delta_heading_rad)
-- 
2.43.0


From 599f22f8de8520e13dce0be283eda754f35a070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:15 +0000
Subject: [PATCH 40/69] fix: metropolis sampled positions at the limits of the
 ranges too rarely

---
 cameratransform/statistic.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 8f48bf4..fa134d1 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -84,6 +84,13 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
         ranges[:,1][np.isnan(ranges[:,1])] = np.inf
     step = np.array(step)
 
+    def getLogProposalNorm(pos, scaled_step):
+        # the log probability of a normal step to stay in the ranges (by symmetry evaluated in the lower tail)
+        lower, upper = (ranges[:, 0] - pos) / scaled_step, (ranges[:, 1] - pos) / scaled_step
+        lower, upper = np.where(lower > 0, -upper, lower), np.where(lower > 0, -lower, upper)
+        with np.errstate(divide="ignore"):
+            return np.sum(np.log(stats.norm.cdf(upper) - stats.norm.cdf(lower)))
+
     adaptive_scale_factor = 1
     tuning = True
 
@@ -111,6 +118,10 @@ def metropolis(getLogProb, start, step=1, iterations=1e5, burn=0.1, prior_trace=
             next_prob = getLogProb(list(next_pos) + next_prior_trace)
             # calculate the acceptance ratio
             ratio = next_prob - last_prob
+            # the truncated steps are not symmetric, positions at the limits would be sampled too rarely
+            correction = getLogProposalNorm(last_pos, scaled_step) - getLogProposalNorm(next_pos, scaled_step)
+            if np.isfinite(correction):
+                ratio += correction
             if np.isinf(next_prob) and np.isinf(last_prob):
                 ratio = 0
             # accept depending on the ratio (>1 means accept always, 0 never)
-- 
2.43.0


From 5dd35dab3c6d3db66fb19f0e30029c8eb60c7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:47 +0000
Subject: [PATCH 41/69] fix: plotting object lengths failed for lengths given
 as an array

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index dd33360..802dd16 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -659,7 +659,7 @@ class Camera(ClassWithParameterSet):
             point3D_back = self.spaceFromImage(points_back, Z=Z)
             difference = point3D_back - point3D_front
             difference /= np.linalg.norm(difference, axis=-1)[..., None]
-            predicted_back = point3D_front + difference * length
+            predicted_back = point3D_front + difference * np.asarray(length)[..., None]
             projected_back = self.imageFromSpace(predicted_back)
 
             plt.scatter(projected_back[..., 0], projected_back[..., 1], label="back", facecolors='none',
-- 
2.43.0


From aa7687f05b6f5c722077594be72a61db73585459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:57 +0000
Subject: [PATCH 42/69] fix: printTraceSummary raised an error for a parameter
 that did not vary

---
 cameratransform/statistic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index fa134d1..74875e1 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -25,6 +25,9 @@ import tqdm
 from scipy.stats import truncnorm
 
 def print_mean_std(x, y):
+    # a parameter that did not vary
+    if y == 0:
+        return str(x) + "±0"
     digits = -int(floor(log10(abs(y))))
     return str(round(x, digits)) + "±" + str(round(y, 1+digits))
 
-- 
2.43.0


From 40e46457e86ef05a0572cc718af6203c00579e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:06 +0000
Subject: [PATCH 43/69] fix: plotEpilines raised an error for a line that is
 completely outside of the image

---
 cameratransform/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 802dd16..f0817eb 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -376,7 +376,8 @@ class CameraGroup(ClassWithParameterSet):
 
             for point, line in zip(points, lines):
                 line = drawLine(line, 0, camA.image_width_px, 0, camA.image_height_px)
-                plt.plot(point[0], point[1], "o", color=line.get_color())
+                # the line can be completely outside of the image, e.g. for a wrong correspondence
+                plt.plot(point[0], point[1], "o", color=line.get_color() if line is not None else None)
 
             p = camA.imageFromSpace(camB.getPos())
             print("p", p)
-- 
2.43.0


From 717ccb49ecc2330eeab4f8d6ab67751a56be0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:28 +0000
Subject: [PATCH 44/69] fix: the guessed extent of the top view was the size of
 the image in pixels

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index f0817eb..4c044c7 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1402,7 +1402,7 @@ class Camera(ClassWithParameterSet):
     def _getMap(self, extent=None, scaling=None, Z=0, hide_backpoints=True):
         # if no extent is given, take the maximum extent from the image border
         if extent is None:
-            border = self.getImageBorder()
+            border = self.spaceFromImage(self.getImageBorder(), Z=Z)
             extent = [np.nanmin(border[:, 0]), np.nanmax(border[:, 0]),
                       np.nanmin(border[:, 1]), np.nanmax(border[:, 1])]
 
-- 
2.43.0


From b6b245da00647c8e0d73d89835e6215eada46840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 45/69] fix: renderImage used the size of the first rendered
 image also for the following images

---
 cameratransform/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 06a66ff..7ef5b04 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -95,7 +95,8 @@ class Scene:  # pragma: no cover
         plt.xlim(0, self.camera.projection.parameters.image_width_px)
         plt.ylim(self.camera.projection.parameters.image_height_px, 0)
         plt.savefig(filename, dpi=100)
-        fig.clear()
+        # a figure that is kept would also keep its size for the next image
+        plt.close(fig)
 
     def addCube(self, pos, width):
         points = []
-- 
2.43.0


From 6ff32081a571cb8ea38aea58bc2cf823f2eb1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 46/69] fix: plotSceneViews of a scene without a camera raised
 an error

---
 cameratransform/scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/scene.py b/cameratransform/scene.py
index 7ef5b04..f59ee65 100644
--- a/cameratransform/scene.py
+++ b/cameratransform/scene.py
@@ -35,7 +35,7 @@ class Scene:  # pragma: no cover
 
     def plotSceneViews(self, axes=None):
         import matplotlib.pyplot as plt
-        cone = self.camera.getCameraCone()
+        cone = self.camera.getCameraCone() if self.camera is not None else np.full((1, 3), np.nan)
 
         if axes is None:
             axes = [plt.subplot(221), plt.subplot(222), plt.subplot(223), plt.subplot(224)]
-- 
2.43.0


From 1c532656f8524527ec198a845bbe060e2014f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 47/69] fix: the number of cameras of a group was the length of
 the last list, also if that contains only one shared element

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 4c044c7..2b59510 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -195,7 +195,7 @@ class CameraGroup(ClassWithParameterSet):
                 setattr(self, parameter_name, [parameter])
             else:
                 setattr(self, parameter_name, list(parameter))
-                self.N = len(getattr(self, parameter_name))
+                self.N = max(self.N, len(getattr(self, parameter_name)))
 
         checkCount(projection, CameraProjection, "projection_list", RectilinearProjection)
         checkCount(orientation, SpatialOrientation, "orientation_list", SpatialOrientation)
-- 
2.43.0


From e10517512e6891ba743f6595fffffec8902ab52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:17 +0000
Subject: [PATCH 48/69] fix: getCameraParametersFromExif ignored the unit of
 the focal plane resolution

---
 cameratransform/camera.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 2b59510..1371138 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -164,9 +164,11 @@ def getCameraParametersFromExif(filename: str, verbose: bool = False, sensor_fro
         sensor_size = _getSensorFromDatabase(exif["Model"])
     # or from the exif information
     if not sensor_size or sensor_size is None:
+        # the resolution is given in pixels per inch, or per centimeter
+        unit_mm = 10 if exif.get("FocalPlaneResolutionUnit") == 3 else 25.4
         sensor_size = (
-            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * 25.4,
-            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * 25.4)
+            exif["ExifImageWidth"] / to_number(exif["FocalPlaneXResolution"]) * unit_mm,
+            exif["ExifImageHeight"] / to_number(exif["FocalPlaneYResolution"]) * unit_mm)
     # get the image size
     image_size = (exif["ExifImageWidth"], exif["ExifImageHeight"])
     # print the output if desired
-- 
2.43.0


From 06348428e3ed38efc75bce86f1a03f97afb2e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:48 +0000
Subject: [PATCH 49/69] fix: spaceFromImage mixed up the points of an array
 with more than two dimensions

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 1371138..01c5d73 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1177,7 +1177,7 @@ class Camera(ClassWithParameterSet):
             points = direction * factor + offset
         else:
             # apply the factor to the direction vector plus the offset
-            points = direction * factor[:, None] + offset[None, :]
+            points = direction * factor[..., None] + offset
         # ignore points that are behind the camera (e.g. trying to project points above the horizon to the ground)
         points[factor < 0] = np.nan
         return points
-- 
2.43.0


From 6639dcd8b634c058e10b8ec4fa0b0f9774d09193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 50/69] fix: spaceFromImage failed for a list of distances

---
 cameratransform/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/camera.py b/cameratransform/camera.py
index 01c5d73..eb631ef 100644
--- a/cameratransform/camera.py
+++ b/cameratransform/camera.py
@@ -1165,7 +1165,7 @@ class Camera(ClassWithParameterSet):
             # get the rays from the image points (in this case it has to be normed)
             offset, direction = self.getRay(points, normed=True)
             # the factor is than simple the distance
-            factor = D
+            factor = np.asarray(D)
         else:
             # get the rays from the image points
             offset, direction = self.getRay(points)
-- 
2.43.0


From 8e93e10e5a381aa193f81eae66a796c9e972dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 51/69] fix: processImage failed without an output directory

---
 cameratransform/gui_tools/calibrate/calibrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/calibrate.py b/cameratransform/gui_tools/calibrate/calibrate.py
index c66b333..139b963 100644
--- a/cameratransform/gui_tools/calibrate/calibrate.py
+++ b/cameratransform/gui_tools/calibrate/calibrate.py
@@ -43,11 +43,11 @@ import numpy as np
 def processImage(fn, pattern_size, w=None, h=None, pattern_points=None, output_directory=None):
     print('processing %s... ' % fn)
     name = os.path.splitext(os.path.split(fn)[1])[0]
-    corners_file = os.path.join(output_directory, name + '_corners.txt')
-    output_image = os.path.join(output_directory, name + '_chess.png')
 
     # if an output directory is given
     if output_directory:
+        corners_file = os.path.join(output_directory, name + '_corners.txt')
+        output_image = os.path.join(output_directory, name + '_chess.png')
         # if there already exists a file with the corner data stored, load it
         if os.path.exists(corners_file):
             # load the corners
-- 
2.43.0


From 21876f29673b1474d2c9100030ec57c133aeb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 52/69] fix: the calibration window displayed png images black

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 1e41b0d..0ef4ae9 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -149,6 +149,9 @@ class MyImage(QtWidgets.QWidget):
             self.image_data = (plt.imread(self.output_image_corners) * 255).astype(np.uint8)
         else:
             self.image_data = plt.imread(self.filename)
+            # png images are read as floats between 0 and 1
+            if self.image_data.dtype != np.uint8:
+                self.image_data = (self.image_data * 255).astype(np.uint8)
         return self.image_data
 
     def getUndistortedImage(self, camera):
-- 
2.43.0


From f1b50a1bd0a37c0a35232e42489ec71c0816330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 53/69] fix: clicking the active orientation type of the demo
 changed the angles

---
 .../gui_tools/demonstrator/demo_matplotlib.py      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
index c52167e..ff01d94 100644
--- a/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
+++ b/cameratransform/gui_tools/demonstrator/demo_matplotlib.py
@@ -95,9 +95,10 @@ def open_demo():
             slider_axs[8].set_visible(False)
 
             # convert from yaw-pitch-roll to tilt-heading-roll
-            sliders[3].set_val(sliders[6].val)
-            sliders[4].set_val(sliders[7].val + 90)
-            sliders[5].set_val(-sliders[8].val)
+            if cam is not cam1:
+                sliders[3].set_val(sliders[6].val)
+                sliders[4].set_val(sliders[7].val + 90)
+                sliders[5].set_val(-sliders[8].val)
             cam = cam1
         elif label == 'yaw-pith-roll':
             # Hide the sliders for heading, tilt, and roll
@@ -110,9 +111,10 @@ def open_demo():
             slider_axs[8].set_visible(True)
 
             # convert from  tilt-heading-roll to yaw-pitch-roll
-            sliders[6].set_val(sliders[3].val)
-            sliders[7].set_val(sliders[4].val - 90)
-            sliders[8].set_val(-sliders[5].val)
+            if cam is not cam2:
+                sliders[6].set_val(sliders[3].val)
+                sliders[7].set_val(sliders[4].val - 90)
+                sliders[8].set_val(-sliders[5].val)
             cam = cam2
         update()
     radio_buttons.on_clicked(change_spatial)
-- 
2.43.0


From 417f08729e4365ca93441dc8f79b4cb7d9cb803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 54/69] fix: mapToOrigin and mapFromOrigin of the image view
 raised a TypeError

---
 .../calibrate/QExtendedGraphicsView.py          | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/QExtendedGraphicsView.py b/cameratransform/gui_tools/calibrate/QExtendedGraphicsView.py
index 3bf3a53..0c4ac46 100644
--- a/cameratransform/gui_tools/calibrate/QExtendedGraphicsView.py
+++ b/cameratransform/gui_tools/calibrate/QExtendedGraphicsView.py
@@ -279,23 +279,22 @@ class QExtendedGraphicsView(QtWidgets.QGraphicsView):
 
     def mapSceneToOrigin(self, pos):
         pos = self.mapToScene(pos)
-        return QtCore.QPoint(pos.x() / self.scaler.transform().m11() - self.translater.transform().dx(),
-                             pos.y() / self.scaler.transform().m22() - self.translater.transform().dy())
+        return QtCore.QPoint(int(pos.x() / self.scaler.transform().m11() - self.translater.transform().dx()),
+                             int(pos.y() / self.scaler.transform().m22() - self.translater.transform().dy()))
 
     def mapToOrigin(self, pos):
         pos = self.mapToScene(pos)
-        return QtCore.QPoint(pos.x() / self.scaler.transform().m11() - self.translater.transform().dx(),
-                             pos.y() / self.scaler.transform().m22() - self.translater.transform().dy())
+        return QtCore.QPoint(int(pos.x() / self.scaler.transform().m11() - self.translater.transform().dx()),
+                             int(pos.y() / self.scaler.transform().m22() - self.translater.transform().dy()))
 
     def mapFromOrigin(self, x, y=None):
         try:
-            x = x.x()
-            y = y.y()
-        except:
+            x, y = x.x(), x.y()
+        except AttributeError:
             pass
         # pos = self.mapToScene(pos)
-        pos = QtCore.QPoint((x + self.translater.transform().dx()) * self.scaler.transform().m11(),
-                            (y + self.translater.transform().dy()) * self.scaler.transform().m22())
+        pos = QtCore.QPoint(int((x + self.translater.transform().dx()) * self.scaler.transform().m11()),
+                            int((y + self.translater.transform().dy()) * self.scaler.transform().m22()))
         return self.mapFromScene(pos)
 
     def mousePressEvent(self, event):
-- 
2.43.0


From 1021f9310844597907ec20cac29bf7b6be58affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 55/69] fix: an input ignored a value of the user that had been
 replaced by the program

---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index d3a00c1..cf4bc33 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -130,6 +130,9 @@ class QInput(QtWidgets.QWidget):
             self._doSetValue(value)
         finally:
             self.no_signal = False
+        # when the value has been changed, the last emitted value has to be emitted if the user chooses it again
+        if self.value() != self.last_emited_value:
+            self.last_emited_value = None
 
     def _doSetValue(self, value):
         # dummy method to be overloaded by child classes
-- 
2.43.0


From 5958137afc358f18b593286db22f80299f9cbc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 56/69] fix: the color input could not open its dialog

---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index cf4bc33..bacfe1c 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -309,7 +309,7 @@ class QInputColor(QInput):
     def _openDialog(self):
         import matplotlib as mpl
         # get new color from color picker
-        color = QtWidgets.QColorDialog.getColor(QtGui.QColor(*tuple(mpl.colors.to_rgba_array(self.value())[0] * 255)),
+        color = QtWidgets.QColorDialog.getColor(QtGui.QColor.fromRgbF(*mpl.colors.to_rgba(self.value())),
                                                 self.parent(), self.label.text() + " choose color")
         # if a color is set, apply it
         if color.isValid():
-- 
2.43.0


From 3447fa933f7b21d2e551f8bf7240547095d2dea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 57/69] fix: the filename input failed without a filename

---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index bacfe1c..ff383c7 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -353,9 +353,10 @@ class QInputFilename(QInput):
             self.label.setHidden(True)
             self.line.setHidden(True)
 
-        # set the color
-        self.setValue(value)
-        if value is None:
+        # set the filename
+        if value is not None:
+            self.setValue(value)
+        else:
             self.last_folder = os.getcwd()
 
     def _openDialog(self):
-- 
2.43.0


From 7e8807ff071c51ab3cd63f8c37353c4dffbc795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:40 +0000
Subject: [PATCH 58/69] fix: the slider of a number input jumped to the
 previous position for some values

---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index ff383c7..b935848 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -206,7 +206,7 @@ class QInputNumber(QInput):
             v = int(value)
         self.spin_box.setValue(v)
         if self.slider is not None:
-            self.slider.setValue(int(value * self.decimal_factor))
+            self.slider.setValue(int(round(v * self.decimal_factor)))
 
     def value(self):
         return self.spin_box.value()
-- 
2.43.0


From 599994d882041a54656624675b87ad402ba62e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:49 +0000
Subject: [PATCH 59/69] fix: the calibration window failed to display an image
 that is not loaded yet

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 0ef4ae9..d25b5c4 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -495,12 +495,11 @@ class Window(QtWidgets.QWidget):
     def displayImage(self):
         # get the current Image
         image = self.getSelectedImage()
-        if image is None:
+        # if there is no image or the image is not loaded yet, there is nothing to display
+        if image is None or image.image_data is None:
             return
-        # if the image data is there
-        if image.image_data is not None:
-            # set it to the display
-            self.preview_pixMapItem.setPixmap(QtGui.QPixmap(array2qimage(image.image_data)))
+        # set it to the display
+        self.preview_pixMapItem.setPixmap(QtGui.QPixmap(array2qimage(image.image_data)))
 
         # if there is an undistorted image and the bock is ticked, display the undistorted in the second view
         if self.input_display_undistorted.value() is True and image.image_data_undistorted is not None:
-- 
2.43.0


From 12de730656817475bc81ea58619371f157a47e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 60/69] fix: the calibration window kept an image uncorrected
 when the calibration was loaded meanwhile

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index d25b5c4..04a98c8 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -155,11 +155,11 @@ class MyImage(QtWidgets.QWidget):
         return self.image_data
 
     def getUndistortedImage(self, camera):
+        # without a calibration there is nothing to correct (and to keep until there is one)
+        if camera is None:
+            return self.image_data
         if self.image_data_undistorted is None:
-            if camera is None:
-                self.image_data_undistorted = self.image_data
-            else:
-                self.image_data_undistorted = camera.undistortImage(self.image_data)
+            self.image_data_undistorted = camera.undistortImage(self.image_data)
         return self.image_data_undistorted
 
     def resetCalibration(self):
-- 
2.43.0


From ad38557a51c0eb6a52e01fafe4f6d86e7fd67e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:50 +0000
Subject: [PATCH 61/69] fix: sample from a trace that is a part of a longer
 trace or consists of several traces

---
 cameratransform/parameter_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/parameter_set.py b/cameratransform/parameter_set.py
index 0b6fca2..a921467 100644
--- a/cameratransform/parameter_set.py
+++ b/cameratransform/parameter_set.py
@@ -180,7 +180,7 @@ class ClassWithParameterSet(object):
 
     def sample(self):
         if self.parameters.trace is not None:
-            parameter_set = dict(self.parameters.trace.loc[np.random.randint(len(self.parameters.trace))])
+            parameter_set = dict(self.parameters.trace.iloc[np.random.randint(len(self.parameters.trace))])
             prob = parameter_set["probability"]
             del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
@@ -198,8 +198,8 @@ class ClassWithParameterSet(object):
         if self.parameters.trace is not None:
             print(self.parameters.trace["probability"])
             print('self.parameters.trace["probability"]', self.parameters.trace["probability"].dtype)
-            most_probable_index = self.parameters.trace["probability"].idxmax()
-            parameter_set = dict(self.parameters.trace.loc[most_probable_index])
+            most_probable_index = self.parameters.trace["probability"].argmax()
+            parameter_set = dict(self.parameters.trace.iloc[most_probable_index])
             if "probability" in parameter_set:
                 del parameter_set["probability"]
             self.parameters.set_fit_parameters(parameter_set.keys(), parameter_set.values())
-- 
2.43.0


From 7024ff0bc40acb678611276632f77f96ae2ddece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 62/69] fix: plot a trace that consists of several traces

---
 cameratransform/statistic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cameratransform/statistic.py b/cameratransform/statistic.py
index 74875e1..58af842 100644
--- a/cameratransform/statistic.py
+++ b/cameratransform/statistic.py
@@ -202,7 +202,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         return trace_ax_dict[name]
 
     try:
-        most_probable_index = trace["probability"].idxmax()
+        most_probable_index = trace["probability"].argmax()
     except KeyError:
         most_probable_index = 0
 
@@ -243,7 +243,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
         plt.ylabel("frequency")
         plt.xlabel(name)
         if show_mean_median:
-            plt.axvline(data[most_probable_index], color="r")
+            plt.axvline(data.iloc[most_probable_index], color="r")
             plt.axvline(np.mean(data), color="k")
 
         if not just_distributions:
@@ -251,7 +251,7 @@ def plotTrace(trace, N=None, show_mean_median=True, axes=None, just_distribution
             plt.title(name)
             plt.plot(data[::skip])
             if show_mean_median:
-                plt.axhline(data[most_probable_index], color="r")
+                plt.axhline(data.iloc[most_probable_index], color="r")
                 plt.axhline(np.mean(data), color="k")
             plt.ylabel("sampled value")
     #plt.tight_layout()
-- 
2.43.0


From 6f13e39d17f01159438ff3a8d5fbb53bfd1797d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 63/69] fix: keep the focal length of one direction when the
 field of view of the other direction is given

---
 cameratransform/projection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 0ed8716..2e6dd7f 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -152,13 +152,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_x_px is not None:
                     raise ValueError("cannot set both focallength_x_px and view_x_deg")
                 focallength_x_px = self.focallengthFromFOV(view_x=view_x_deg)
-                if not view_y_deg:
+                if not view_y_deg and focallength_y_px is None:
                     focallength_y_px = focallength_x_px
             if view_y_deg:
                 if focallength_y_px:
                     raise ValueError("cannot set both focallength_y_px and view_y_deg")
                 focallength_y_px = self.focallengthFromFOV(view_y=view_y_deg)
-                if not view_x_deg:
+                if not view_x_deg and focallength_x_px is None:
                     focallength_x_px = focallength_y_px
 
             # remove the temporary attributes, they would hide the parameters of the same name
-- 
2.43.0


From 1723d75c75176e802fb399d1be64a857152ea853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 64/69] fix: the difference in height does not move a point
 horizontally in spaceFromGPS

---
 cameratransform/gps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index ce99960..2a074d3 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -468,7 +468,8 @@ def spaceFromGPS(gps, gps0):
         height = np.zeros_like(gps[..., 0])
     else:
         height = gps[..., 2]
-    distance = getDistance(gps0, gps)
+    # the horizontal distance, without the difference in height
+    distance = getDistance(np.asarray(gps0)[..., :2], gps[..., :2])
     bearing_rad = np.deg2rad(getBearing(gps0, gps))
     return np.array([distance * np.sin(bearing_rad), distance * np.cos(bearing_rad), height]).T
 
-- 
2.43.0


From 18842a2580f102d5a74b79639359fde66e84ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:55 +0000
Subject: [PATCH 65/69] fix: the focallength_px of a copied camera sets the
 focal lengths of the copy

---
 cameratransform/projection.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/cameratransform/projection.py b/cameratransform/projection.py
index 2e6dd7f..9aa6876 100644
--- a/cameratransform/projection.py
+++ b/cameratransform/projection.py
@@ -180,19 +180,9 @@ class CameraProjection(ClassWithParameterSet):
         )
 
         # add parameter focallength_px that sets x and y simultaneously
-        fx = self.parameters.parameters["focallength_x_px"]
-        fy = self.parameters.parameters["focallength_y_px"]
         f = Parameter(focallength_x_px, type=TYPE_INTRINSIC)
-
-        def callback():
-            fx.value = f.value
-            if fx.callback is not None:
-                fx.callback()
-            fy.value = f.value
-            if fy.callback is not None:
-                fy.callback()
-
-        f.callback = callback
+        # a bound method, so that it refers to the parameters of the copy after copying the projection
+        f.callback = self._setFocalLength
         self.parameters.parameters["focallength_px"] = f
 
         if view_x_deg is not None or view_y_deg is not None:
@@ -202,6 +192,13 @@ class CameraProjection(ClassWithParameterSet):
                 if focallength_mm is not None and self.focallength_px and sensor_height_mm is not None:
                     self.sensor_height_mm = focallength_mm / self.focallength_y_px * self.image_height_px
 
+    def _setFocalLength(self):
+        parameters = self.parameters.parameters
+        for name in ["focallength_x_px", "focallength_y_px"]:
+            parameters[name].value = parameters["focallength_px"].value
+            if parameters[name].callback is not None:
+                parameters[name].callback()
+
     def __str__(self):
         string = ""
         string += "  intrinsic (%s):\n" % type(self).__name__
-- 
2.43.0


From ed1282a91e082c6bab80a4d141cabf8091a6d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:50 +0000
Subject: [PATCH 66/69] fix: choosing the same file again in the file dialog
 had no effect

---
 cameratransform/gui_tools/demonstrator/QtShortCuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cameratransform/gui_tools/demonstrator/QtShortCuts.py b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
index b935848..8e3b67e 100644
--- a/cameratransform/gui_tools/demonstrator/QtShortCuts.py
+++ b/cameratransform/gui_tools/demonstrator/QtShortCuts.py
@@ -380,6 +380,8 @@ class QInputFilename(QInput):
         # set the filename
         if filename:
             self.setValue(filename)
+            # the user can choose the same file again, e.g. to save to it or to load it once more
+            self.last_emited_value = None
             self._emitSignal()
 
     def _doSetValue(self, value):
-- 
2.43.0


From c7ef157644f857207e2494f22fe407d81d5e4071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 67/69] fix: images in folders with brackets in their name
 could not be loaded in the calibration window

---
 cameratransform/gui_tools/calibrate/gui_calibrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cameratransform/gui_tools/calibrate/gui_calibrate.py b/cameratransform/gui_tools/calibrate/gui_calibrate.py
index 04a98c8..4700410 100644
--- a/cameratransform/gui_tools/calibrate/gui_calibrate.py
+++ b/cameratransform/gui_tools/calibrate/gui_calibrate.py
@@ -425,8 +425,8 @@ class Window(QtWidgets.QWidget):
         # load a batch of images from a folder
         # split the filename from the directory
         directory, filename = os.path.split(filename)
-        # replace numbers with * (for glob)
-        filename = os.path.join(directory, re.sub("\\d+", "*", filename))
+        # replace numbers with * (for glob), other characters that are special for glob are meant literally
+        filename = os.path.join(glob.escape(directory), re.sub("\\d+", "*", glob.escape(filename)))
         # define the output directory (as a subdirectory "output")
         output_directory = os.path.join(directory, "output")
 
-- 
2.43.0


From b4b9e0d0942c9e88ea81cefaa6e3784f67337be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:41 +0000
Subject: [PATCH 68/69] fix: gpsFromString with a height failed for a list of
 points

---
 cameratransform/gps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cameratransform/gps.py b/cameratransform/gps.py
index 2a074d3..4159b1c 100644
--- a/cameratransform/gps.py
+++ b/cameratransform/gps.py
@@ -254,6 +254,9 @@ def gpsFromString(gps_string: Union[str, List[str], List[Tuple[str, float]]], he
         # and optionally add a height
         if height is None:
             return data
+        # a list of points, with a height for all or for each of them
+        elif data.ndim == 2:
+            return np.column_stack((data, np.broadcast_to(height, len(data))))
         else:
             return np.hstack((data, [height]))
     regex_list = [r"(?P<deg>[\d+-]+)°\s*(?P<min>\d+)('|′|´|’)\s*(?P<sec>[\d.]+)(''|\"| |´´|″)\s*",
-- 
2.43.0


From 11373f523081c61c823e29a1f3a53aa442507c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 69/69] fix: intersecting rays with one direction and several
 origins returned only the first one

---
 cameratransform/ray.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cameratransform/ray.py b/cameratransform/ray.py
index 4923499..431979f 100644
--- a/cameratransform/ray.py
+++ b/cameratransform/ray.py
@@ -50,7 +50,8 @@ def ray_intersect_triangle(origin, direction, triangle, use_planes=False):
     direction = np.array(direction)
     if len(direction.shape) == 1:
         direction = direction.reshape(1, *direction.shape)
-        return_single = True
+        # one direction can have several origins
+        return_single = len(origin.shape) == 1
     else:
         return_single = False
     triangle = np.array(triangle)
-- 
2.43.0

