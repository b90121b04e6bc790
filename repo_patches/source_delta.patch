From 58cf39810e14c9c6a04cbb0886ee1754e6763683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 01/16] fix: honour polarization_type "VH" in dual-polarized
 panel arrays

The slant angle of a dual-polarized array was selected by comparing
`polarization` (which is "dual") instead of `polarization_type` with "VH",
so VH arrays silently behaved like cross-polarized ones.
---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From aca7ccb9ee565e68051560ee0aebf26c11684eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 02/16] fix: correct the 16th ray offset angle (-1.1481, TR
 38.901 Table 7.5-3)

The offsets come in +/- pairs; the sixteenth one had lost a digit.
---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From 82fab1bfc6739c70132cd35b27c32875cee0d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 03/16] fix: use each batch example's own BS height for the 3D
 distance

`set_topology` documents that every batch example may have its own topology,
but the slant range of all of them was computed from the first example only.
---
 OpenNTN/system_level_scenario.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..1f55017 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -808,16 +808,11 @@ class SystemLevelScenario(Object):
         R_E = 6371000
  
         #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        height_val = tf.expand_dims(self._bs_loc[:,:,2], axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
         #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From 5de2faf9a82b842e234169d3de5a28e1b46e4d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 04/16] fix: LoS zenith angle of arrival must mirror the angle
 of departure

With aoa = aod + pi, zoa = zod - pi flips the horizontal components of the
unit vector twice, so that the LoS path did not arrive from the direction of
the BS. The zenith angle of arrival is pi - zod.
---
 OpenNTN/system_level_scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 1f55017..03939f8 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -819,7 +819,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From a787d9385c1356374b1d78d5ff65f830d2bd68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/16] fix: no shadow fading in the basic pathloss when it is
 disabled

With enable_shadow_fading=False a random shadow fading term was still added
to the basic pathloss.
---
 OpenNTN/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..488d143 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1774,8 +1774,12 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        if self.shadow_fading_enabled:
+            SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
+            SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        else:
+            SF_los = 0.0
+            SF_nlos = 0.0
 
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
-- 
2.43.0


From 8454b1facb62eb16756a19fd39e9ee79be99a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 06/16] fix: orient UTs with a negative x coordinate towards
 the BS

atan(y/x) points such UTs away from the BS (and is undefined for x = 0).
---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 488d143..e7c918a 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -982,7 +982,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From f2c8236f86bd3ac5cb02390b9f42a836dc98c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 07/16] fix: effective turbulent path length of the
 tropospheric scintillation

ITU-R P.618: L = 2 h_L / (sqrt(sin^2(theta) + 2.35e-4) + sin(theta)); the
second sine had slipped under the square root.
---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index e7c918a..d2fba93 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1717,7 +1717,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
-- 
2.43.0


From bdf166521d0000b724e24655f75d981601b08edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 08/16] fix: zero tropospheric scintillation instead of NaN for
 large antennas

ITU-R P.618 sets the fade depth to zero when the argument of the square root
of the antenna averaging factor is negative.
---
 OpenNTN/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d2fba93..438ea39 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1726,7 +1726,8 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            # ITU-R P.618: the fade depth is zero if the argument of the square root is negative (x >= 7)
+            g = tf.math.sqrt(tf.math.maximum(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6), 0.0))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From 867c9e8fffb15c9f83f664cc73a7c18faec64cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:37 +0000
Subject: [PATCH 09/16] fix: keep and apply atmosphere/earth-station parameters
 across topology updates

set_topology() documents that unspecified parameters keep their previous
value, but the atmosphere and earth station parameters were reset to their
standard values by every call, and the losses depending on them were only
recomputed when the topology itself changed.
---
 OpenNTN/system_level_scenario.py | 42 +++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 03939f8..ef0bde1 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,18 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Atmosphere and earth station: standard values, used until others
+        # are given to `set_topology()`
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -568,52 +580,41 @@ class SystemLevelScenario(Object):
         # This is required if the UT locations, BS locations, indoor/outdoor
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
+        # The gas and scintillation pathlosses also depend on these parameters
+        need_for_pathloss_update = False
 
-        #Setting values to standard values if not further specified
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            need_for_pathloss_update = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            need_for_pathloss_update = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            need_for_pathloss_update = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            need_for_pathloss_update = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            need_for_pathloss_update = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            need_for_pathloss_update = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -661,6 +662,9 @@ class SystemLevelScenario(Object):
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
             #self._compute_pathloss_additional()
+        elif need_for_pathloss_update:
+            self._compute_pathloss_gas()
+            self._compute_pathloss_scintillation()
         return need_for_update
 
     def spatial_correlation_matrix(self, correlation_distance):
-- 
2.43.0


From 5b3f29bf0679f330f0adfe3a182a44274b57ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:42 +0000
Subject: [PATCH 10/16] fix: make the "double" precision usable

The distance, pathloss, LoS probability, Doppler and Faraday computations and
the topology generator mixed hard-coded single precision tensors with tensors
of the requested precision, so every channel model failed with
precision="double".
---
 OpenNTN/antenna.py               |  4 ++--
 OpenNTN/channel_coefficients.py  | 10 +++++-----
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  4 ++--
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 31 ++++++++++++++++---------------
 7 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..aab8557 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, r.dtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, r.dtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..4a269c0 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,9 +97,9 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), sat_speed.dtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=sat_speed.dtype)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -1111,9 +1111,9 @@ class ChannelCoefficientsGenerator(Object):
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
         psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), tf.constant(0.0, self.rdtype)))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), tf.constant(0.0, self.rdtype)))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), tf.constant(0.0, self.rdtype)))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..aaecd07 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..1ef1fa0 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index ef0bde1..5b010cf 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -806,7 +806,7 @@ class SystemLevelScenario(Object):
         # 3D distances for all BS-UT pairs
         # The 3D distance needs to take the curvature of Earth into account
         elevation_angle = self._elevation_angle
-        #convert to radians for tf.math.sin later
+        #convert to radians for math.sin later
         elevation_angle = math.radians(elevation_angle)
         #Radius of the Earth
         R_E = 6371000
@@ -814,7 +814,7 @@ class SystemLevelScenario(Object):
         #satellite height 
         height_val = tf.expand_dims(self._bs_loc[:,:,2], axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
-        distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
+        distance_3d = (tf.sqrt(R_E**2 * math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*math.sin(elevation_angle))
         #Expanding to correct shape
         distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..0435dda 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 438ea39..1268b10 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1608,8 +1609,8 @@ def compute_pathloss_gas(self):
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
-        rt=288/T
-        rp=p/1013
+        rt=tf.cast(288/T, self.rdtype)
+        rp=tf.cast(p/1013, self.rdtype)
         n1=0.955*rp*(rt**0.68)+(0.006*pw)
         n2=0.735*rp*(rt**0.5)+(0.0353*(rt**4)*pw)
         Yw = (((3.98*n1*tf.math.exp(2.23*(1-rt))) / (((f-22.235)**2) + 9.42*(n1**2))) * (1+((f-22) / (f+22))**2) + \
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / math.sin(math.radians(Elev))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4) + tf.math.sin(math.radians(Elev)))
+            L = (2 * hL) / (math.sqrt(math.sin(math.radians(Elev))**2 + 2.35e-4) + math.sin(math.radians(Elev)))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1739,7 +1740,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1752,14 +1753,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1776,8 +1777,8 @@ def compute_pathloss_basic(self):
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
         if self.shadow_fading_enabled:
-            SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-            SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+            SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+            SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
         else:
             SF_los = 0.0
             SF_nlos = 0.0
-- 
2.43.0


From 27f5c7e1f75feffa2d6235bef46e9d915032279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 11/16] fix: decide the zero departure spread of satellites per
 BS and batch example

---
 OpenNTN/rays.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index aab9000..0056152 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -389,6 +389,19 @@ class RaysGenerator(Object):
 
         return powers, powers_for_angles_gen
 
+    def _is_satellite(self):
+        """
+        Indicates for each BS of each batch example if it is a satellite, i.e.,
+        if its altitude is at least 160 km
+
+        Output
+        -------
+        : [batch size, num of BSs, 1, 1], tf.bool
+            Flag per BS
+        """
+        h_bs = self._scenario.h_bs
+        return tf.expand_dims(tf.expand_dims(h_bs >= 160000., axis=2), axis=3)
+
     def _azimuth_angles(self, azimuth_spread, rician_k_factor, cluster_powers,
                         angle_type):
         # pylint: disable=line-too-long
@@ -431,8 +444,8 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
+            azimuth_spread = tf.where(self._is_satellite(),
+                tf.zeros_like(azimuth_spread), azimuth_spread)
             
         else:
             azimuth_angles_los = scenario.los_aoa
@@ -596,8 +609,9 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            #Spread is 0 for satellite cases
+            zenith_spread = tf.where(self._is_satellite(),
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
-- 
2.43.0


From 1aba15f51c1254be908d0861162089087df10923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 12/16] fix: per-BS and per-batch satellite height in Doppler
 shift and Faraday rotation

The height of the first batch example decided for all examples, and several
BSs made the generation of channel coefficients fail.
---
 OpenNTN/channel_coefficients.py | 121 ++++++++++++++++++++++++--------
 OpenNTN/system_level_channel.py |   2 +-
 2 files changed, 91 insertions(+), 32 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 4a269c0..456c49d 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -61,6 +61,9 @@ class Topology(Object):
         Orientations of the receivers, which are either BSs or UTs depending on
         the link direction [radian].
 
+    bs_height : [batch size, number of BSs] or [1], tf.float
+        Heights of the BSs (satellites) [m].
+
     doppler_enabled : bool
         Indicates if Doppler shift induced phase rotation should be simulated.
     """
@@ -100,6 +103,9 @@ class Topology(Object):
         max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), sat_speed.dtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype=sat_speed.dtype)
+        if sat_speed.shape.rank == 2:
+            # One height per batch example and BS
+            random_direction_per_batch = tf.expand_dims(random_direction_per_batch, axis=1)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -543,6 +549,76 @@ class ChannelCoefficientsGenerator(Object):
 
         return h_phase
 
+    def _expand_bs_dim(self, topology, x):
+        # pylint: disable=line-too-long
+        r"""
+        Make a quantity of the BSs broadcastable with the one of the rays
+
+        Input
+        -----
+        topology : Topology
+            Topology of the network
+
+        x : [batch size, num BSs], or [batch size] for a single BS, tf.float
+            Quantity of the BSs
+
+        Output
+        ------
+        : [batch size, num TXs or 1, num RXs or 1, 1, 1], tf.float
+            ``x`` with the BSs along the dimension of the non moving end
+        """
+        if x.shape.rank != 2:
+            x = tf.reshape(x, [-1, 1])
+        x = tf.expand_dims(x, 2 if topology.moving_end == 'rx' else 1)
+        return tf.expand_dims(tf.expand_dims(x, -1), -1)
+
+    def _is_satellite(self, topology):
+        r"""
+        Indicate for each link whether its BS is a satellite, i.e., has a
+        height of at least 600km
+
+        Input
+        -----
+        topology : Topology
+            Topology of the network
+
+        Output
+        ------
+        : [batch size, num TXs or 1, num RXs or 1, 1, 1], tf.bool
+            `True` for the links with a satellite
+        """
+        return tf.greater_equal(self._expand_bs_dim(topology, topology.bs_height), 600000.0)
+
+    def _add_faraday_rotation(self, topology, h_phase, carrier_frequency, rays_shape):
+        # pylint: disable=line-too-long
+        r"""
+        Apply the Faraday rotation to the phase matrices of the links with a
+        satellite
+
+        Input
+        -----
+        topology : Topology
+            Topology of the network
+
+        h_phase : [batch size, num TXs, num RXs, num clusters, num rays, 2, 2], tf.complex
+            Matrix with random phases
+
+        carrier_frequency : float
+            Carrier frequency [Hz]
+
+        rays_shape : [5], tf.int
+            Shape of the rays
+
+        Output
+        ------
+        : [batch size, num TXs, num RXs, num clusters, num rays, 2, 2], tf.complex
+            Rotated phase matrix
+        """
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
+        is_satellite = self._is_satellite(topology)[..., tf.newaxis, tf.newaxis]
+        faraday_phase_rotation = tf.where(is_satellite, faraday_phase_rotation, tf.eye(2, dtype=self.cdtype))
+        return tf.matmul(h_phase, faraday_phase_rotation)
+
     def _step_11_doppler_matrix(self, topology, aoa, zoa, aod, zod, t):
         # pylint: disable=line-too-long
         r"""
@@ -606,27 +682,17 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
-            # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
-            # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
-            # The Doppler shift induced phase shift between each time step
-            max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
-
-            # Multiply the time with the shift per time to create the shift on each time symbol for each batch
-            # [batch size, num time steps]
-            rotation_for_time = tf.matmul(tf.expand_dims(max_rotation_per_time,axis=1), tf.expand_dims(t,axis=0))
-
-            # As the time shift is the same within each batch, we expand the calculations per batch in the desired shape
-            # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-
-            rotation_for_time = tf.broadcast_to(rotation_for_time, tf.shape(exponent))
-            # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
-            exponent = tf.math.add(exponent, rotation_for_time)
+        # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
+        # to simulate the random direction of the orbit in relation to the users.
+        # The Doppler shift induced phase shift between each time step
+        # [batch size, num_tx or 1, num rx or 1, 1, 1]
+        max_rotation_per_time = (2.0*PI/lambda_0)*self._expand_bs_dim(topology, topology.sat_speed)
+        is_satellite = tf.logical_and(self._is_satellite(topology), topology.doppler_enabled)
+        max_rotation_per_time = tf.where(is_satellite, max_rotation_per_time, tf.zeros_like(max_rotation_per_time))
+
+        # Multiply the time with the shift per time to create the shift on each time symbol, and
+        # add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
+        exponent = exponent + tf.expand_dims(max_rotation_per_time, axis=-1)*t
 
         h_doppler = tf.exp(tf.complex(tf.constant(0.,
                                     self.rdtype), exponent))
@@ -872,11 +938,8 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
-            
+        h_phase = self._add_faraday_rotation(topology, h_phase, carrier_frequency, tf.shape(rays.aoa))
+
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
         h_array = self._step_11_array_offsets(topology, rays.aoa, rays.aod,
@@ -1020,11 +1083,7 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        h_phase = self._add_faraday_rotation(topology, h_phase, carrier_frequency, tf.shape(aoa))
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..8b84e69 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario.bs_loc[:,:,2],
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
-- 
2.43.0


From ba0999049386bab054c9bc28f8a8533908676e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 13/16] fix: Faraday rotation in double precision for a Python
 float carrier frequency

---
 OpenNTN/channel_coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 456c49d..85a34c9 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -1169,7 +1169,7 @@ class ChannelCoefficientsGenerator(Object):
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
-        psi_in_rad = psi_in_deg * (PI/180.0)
+        psi_in_rad = tf.cast(psi_in_deg * (PI/180.0), self.rdtype)
         faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), tf.constant(0.0, self.rdtype)))
         faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), tf.constant(0.0, self.rdtype)))
         faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), tf.constant(0.0, self.rdtype)))
-- 
2.43.0


From e2008d9ac9e7245e3db4353f7748b9459aabd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:05 +0000
Subject: [PATCH 14/16] fix: TDL satellite Doppler shift in radians with
 consistent units and precision

The satellite velocity in km/s was divided by the speed of light in km/h, the
shift in Hz was added to an angular frequency, and a single-precision constant
made precision="double" fail.
---
 OpenNTN/tdl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index f2e5cc9..a0858a2 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -572,16 +572,16 @@ class TDL(ChannelModel):
         G = 6.6743 * (10 ** (-11)) #Gravitational constant of Earth in m^3/(kg*s^2)
         M = 5.972 * (10 ** 24) #Mass of Earth in kg
         
-        v_light = 299792458 * 3.6# speed of light in m/s (as m/s * 3.6 to get km/h)
+        v_light = 299792458 / 1000# speed of light in km/s
         r_earth = 6371#Earths radius in km
         h_sat = self.basestation_height/1000 #in km
         elavation_angle = self.elevation_angle
 
         #Equation (8.41) from Curtis, H. D. (2005). Orbital Mechanics for Engineering Students. Butterworth-Heinemann. ISBN: 0 7506 6169 0.
-        v_sat = tf.math.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
+        v_sat = np.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
 
         additional_doppler_shift_811 = v_sat/v_light * ((r_earth/(r_earth+h_sat)) * np.cos(np.deg2rad(elavation_angle))) * self._carrier_frequency
-        return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + additional_doppler_shift_811
+        return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + 2.*PI*additional_doppler_shift_811
 
 
     def _load_parameters(self, fname):
-- 
2.43.0


From 1a5e79922b60d7375699537f4cfc466f4f2f4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:05 +0000
Subject: [PATCH 15/16] fix: TDL transmit correlation needs the adjoint of the
 square root

h @ L gives the antennas the correlation L^H L instead of tx_corr_mat = L L^H.
---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index a0858a2..0605502 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,7 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt, adjoint_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0


From 8323b94672a78b013f8da5785257ccdf8f32706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:52 +0000
Subject: [PATCH 16/16] fix: TDL transmit correlation as in the documented
 Kronecker product

With h L^H the antennas get the correlation R_rx (x) conj(R_tx); the documented
R_rx (x) R_tx, and the result of spatial_corr_mat, need h L^T. Real matrices are
not affected.
---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 0605502..fcf26c3 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,7 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt, adjoint_b=True)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt, transpose_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0

