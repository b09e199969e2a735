From c3f829d13f79acdf5c59bc38a6a02a544f682852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 01/22] fix: hle1 raised UnboundLocalError for neutral
 stability

When the potential air temperature equals the surface temperature the
iteration is skipped, but the convergence flag was taken from the
iteration counter that only exists in the other branch.
---
 pysnobal/point/libsnobal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..087d62a 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,6 +257,9 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
+    # assume success unless the iteration fails to converge
+    ier = 0
+
     # if neutral stability ignore starting values and calculate
     if air_temp == surface_temp:
 
@@ -314,7 +317,7 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # if it > ITMAX:
             #     break
 
-    ier = -1 if (it >= ITMAX) else 0
+        ier = -1 if (it >= ITMAX) else 0
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From 04304963b748ced621f5087f6fef26a957982b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 02/22] fix: hle1 never reported that it did not converge

The iteration counter of range(ITMAX) cannot reach ITMAX, so the status
was always 0 and the fluxes of an iteration that oscillates (or is NaN,
e.g. for no wind) were returned as a success. Snobal.h_le is written to
raise on a non zero status.
---
 pysnobal/point/libsnobal.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 087d62a..4e75948 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -314,10 +314,9 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # it += 1
             if (np.abs(diff) < THRESH) and (np.abs(diff/lo) < THRESH):
                 break
-            # if it > ITMAX:
-            #     break
-
-        ier = -1 if (it >= ITMAX) else 0
+        else:
+            # ran out of iterations without meeting the threshold
+            ier = -1
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From b60d3540f03dbaf9bdbdfb31b8b649e41d0f9210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/22] fix: relative measurement heights were ignored

relative_heights from the config is put into the params, but Snobal
always treated the measurement heights as heights above the soil.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..f7a2f18 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = self.params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From 03966a33abc13a07eee47fc4b485bfc599586476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 04/22] fix: end of run was wrong for an input csv that is not
 in time order

The data time step was taken from the first two lines of the file before
the records were sorted.
---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..46c483a 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -232,8 +232,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 5b89d9d7cc27c7fef664e9f4e2d3340f4585e1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 05/22] fix: supersaturated vapor pressure corrupted the rest
 of the data step

h_le limits the vapor pressure to saturation, but wrote the limited value
back to the input record that is interpolated by adding deltas. All the
following run time steps of the data time step were off, up to a negative
vapor pressure that stops the model.
---
 pysnobal/point/snobal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index f7a2f18..5674715 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1048,12 +1048,13 @@ class Snobal(object):
 
         # error check for bad vapor pressures
         sat_vp = self.input1.sat_vp
+        e_a = self.input1.e_a
 
-        if self.input1.e_a > sat_vp:
+        if e_a > sat_vp:
             warnings.warn(
                 """{} h_le: input vapor pressure is greater than """
                 """saturation vapor pressure""".format(self.current_datetime))
-            self.input1.e_a = sat_vp
+            e_a = sat_vp
 
         # determine relative measurement heights
         if self.relative_hts:
@@ -1069,7 +1070,7 @@ class Snobal(object):
             self.input1.t_a,
             self.snow_state.t_s_0,
             rel_z_T,
-            self.input1.e_a,
+            e_a,
             self.snow_state.e_s_0,
             rel_z_T,
             self.input1.u,
-- 
2.43.0


From c2639dff969a88503b41ad0a72b473fdd94db800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 06/22] fix: data time step different from the normal run time
 step

The data time step from the config was never used. One normal run time
step was executed for each pair of input records, no matter how many fit
in the data time step, so the clock and the forcing went out of step.
---
 pysnobal/pysnobal.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 46c483a..04f55d7 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -91,7 +91,7 @@ class PySnobal():
                     'output': {{ config.files.output_mode }},
                     'threshold': {{ config.model.norm_threshold }},
                     'time_step': {{ config.model.norm_time_step }},
-                    'intervals': 1
+                    'intervals': {{ data_tstep / norm_tstep }}
                     }
                 1: {
                     'level': 1,
@@ -142,16 +142,19 @@ class PySnobal():
             tstep_info.append(t)
 
         # normal time step
+        data_time_step = self.config['time']['time_step']
         tstep_info[NORMAL_TSTEP].update({
-            'intervals': 1,
-            'intervals_per_timestep': 1,
+            'intervals': int(data_time_step /
+                             time_step[NORMAL_TSTEP]),
+            'intervals_per_timestep': int(data_time_step /
+                                          time_step[NORMAL_TSTEP]),
         })
 
         # medium time step
         tstep_info[MEDIUM_TSTEP].update({
             'intervals': int(time_step[NORMAL_TSTEP] /
                              time_step[MEDIUM_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[MEDIUM_TSTEP]),
         })
 
@@ -163,7 +166,7 @@ class PySnobal():
         tstep_info[SMALL_TSTEP].update({
             'intervals': int(time_step[MEDIUM_TSTEP] /
                              time_step[SMALL_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[SMALL_TSTEP]),
         })
 
-- 
2.43.0


From f1eefabfa12888b3b5e8c195d8bf1ad49f06f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 07/22] fix: initial snow temperatures of the config are in
 Celcius

They were handed to Snobal as they are, which works in Kelvin.
---
 pysnobal/pysnobal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 04f55d7..223e9a1 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -283,6 +283,11 @@ class PySnobal():
         mimic the main.c from the Snobal model
         """
 
+        # the snow temperatures are in Celcius in the config
+        initial_snow = dict(self.config['initial_snow_properties'])
+        initial_snow['t_s_0'] += FREEZE
+        initial_snow['t_s'] += FREEZE
+
         # loop through the input
         # do_data_tstep needs two input records
         input_data = self.input_data.to_dict('index')
@@ -292,7 +297,7 @@ class PySnobal():
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            initial_snow,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From 098875ae75b56c14fe9f75519c25455a07daf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/22] fix: initial lower layer temperature of a two layer
 snowcover

Without t_s_l in the initial conditions, which the config has no entry
for, the lower layer started at 0 K. Derive it from the average and the
surface layer temperatures.
---
 pysnobal/point/snobal.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 5674715..56ab411 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1179,6 +1179,14 @@ class Snobal(object):
                 self.snow_state.m_s_0)
 
             if self.snow_state.layer_count == 2:
+                if self.snow_state.t_s_l <= 0:
+                    # not in the initial conditions, use the temperature
+                    # that agrees with the average snowcover temperature
+                    self.snow_state.t_s_l = min(
+                        (self.snow_state.m_s * self.snow_state.t_s -
+                         self.snow_state.m_s_0 * self.snow_state.t_s_0) /
+                        self.snow_state.m_s_l, FREEZE)
+
                 self.snow_state.cc_s_l = self.cold_content(
                     self.snow_state.t_s_l,
                     self.snow_state.m_s_l)
-- 
2.43.0


From da37a38d503d24dae6396a65479a7510fcc4c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 09/22] fix: division by zero for a snowcover that holds no
 liquid water

With max_h2o of 0, the saturation was 0 / 0.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 56ab411..50a55bb 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -342,7 +342,7 @@ class Snobal(object):
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
             self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+                self.snow_state.h2o_max if self.snow_state.h2o_max > 0 else 0.0
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From a319b88e3326afd793712817ed10144a39284161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 10/22] fix: compaction rate of a deep snowcover ignored the
 time step

At SWE_MAX and above, the rate was applied per run time step whatever
its length.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 50a55bb..4d04862 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -777,7 +777,7 @@ class Snobal(object):
             rate = 1.0
         else:
             rate = R1 * math.cos(np.pi * self.snow_state.m_s / SWE_MAX) + R2
-            rate = rate / (self.time_step / 3600.0)
+        rate = rate / (self.time_step / 3600.0)
 
         # Proportional Destructive Temperature Metamorphism (d_rho_m)
         if self.snow_state.rho < 100:
-- 
2.43.0


From 4c14197b32473f139bbda32d7006ae637a5ead9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 11/22] fix: liquid water was counted twice when the snowcover
 disappears

The mass of a snowcover that falls below the threshold is turned into
water on top of the liquid water that is already part of that mass, and
more runoff was reported than mass was lost.
---
 pysnobal/point/snobal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 4d04862..3538453 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -610,6 +610,11 @@ class Snobal(object):
                 self.adj_snow(
                     self.input1.z_snow, self.input1.m_pp)
 
+                if not self.snowcover:
+                    # still too little mass for a snowcover, all of it
+                    # including the precipitation is water now
+                    return
+
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
@@ -838,9 +843,10 @@ class Snobal(object):
             self.snow_state.rho = 0
 
             # if mass > 0, then it must be velow threshold.
-            # So turn this little bit of mass into water
+            # So turn this little bit of mass into water. The liquid water
+            # that is in the snowcover is already part of its mass.
             if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total += self.snow_state.m_s
+                self.snow_state.h2o_total = self.snow_state.m_s
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From 078fc067e037fba39de79ba73d390e9ee03bebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 12/22] fix: negative depth after all the snow melted in one
 run time step

A snowcover with a mass above the threshold can melt completely, the
depth that is left is then zero or negative and stayed in the output.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 3538453..31a48dc 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -850,7 +850,7 @@ class Snobal(object):
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-                     'm_s', 'm_s_0', 'cc_s_0']
+                     'm_s', 'm_s_0', 'cc_s_0', 'z_s', 'z_s_0', 'z_s_l']
             self.snow_state.set_zeros(index)
 
             # Note: Snow temperatures are set to MIN_SNOW_TEMP
-- 
2.43.0


From 81feb65afd13ad2d86fc1aa30abd82321e32cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 13/22] fix: a snowcover without ice kept a mass after all of
 it melted in one run time step

When the melt of one run time step takes all of the ice, the depth that
was left belonged to liquid water only: the snowcover went on with more
water than mass, and runoff made its mass and density negative.
---
 pysnobal/point/snobal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 31a48dc..3dde5b9 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -593,7 +593,12 @@ class Snobal(object):
 
         # adjust depth and density for melt
         if self.snow_state.melt > 0:
-            self.adj_snow((-1)*self.snow_state.melt/self.snow_state.rho, 0)
+            if self.snow_state.h2o_total >= self.snow_state.m_s:
+                # no ice is left, there is no snowcover any more
+                self.adj_snow((-1)*self.snow_state.z_s, 0)
+            else:
+                self.adj_snow(
+                    (-1)*self.snow_state.melt/self.snow_state.rho, 0)
 
     def precip_event(self):
         """
-- 
2.43.0


From f04b7988dcdc7e9787f18e5ccb6eef573bdefb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 14/22] fix: missing input values ran through the model
 unnoticed

A record with a missing value (an empty cell of the input file) made the
snowcover vanish or was treated as a dry time step.
---
 pysnobal/point/input.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysnobal/point/input.py b/pysnobal/point/input.py
index 295f6dc..f8aaab2 100644
--- a/pysnobal/point/input.py
+++ b/pysnobal/point/input.py
@@ -1,3 +1,5 @@
+import math
+
 from pysnobal.core.constants import FREEZE
 from pysnobal.point.libsnobal import sati
 
@@ -57,6 +59,14 @@ class InputData():
         self.rho_snow = data['rho_snow']
         self.t_pp = data['t_pp']
 
+        # a missing value would run through the model unnoticed
+        required = self.INPUt_VARIABLES + ['m_pp']
+        if self.m_pp > 0:
+            required = required + ['percent_snow', 't_pp']
+        for variable in required:
+            if not math.isfinite(data[variable]):
+                raise ValueError('{} is not a finite number'.format(variable))
+
         # derived precip values
         self.m_snow = self.m_pp * self.percent_snow
         self.m_rain = self.m_pp - self.m_snow
-- 
2.43.0


From 18682a643b627f48535e7bccb2f941ee312874c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 15/22] fix: records of irregular input data were given wrong
 times

Missing or repeated records, records at another interval than the configured
time step or a start date without a record shifted every later record of the
output.
---
 pysnobal/pysnobal.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 223e9a1..13d08c9 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -236,13 +236,22 @@ class PySnobal():
 
         # get the time delta of the data
         input_data.sort_index(inplace=True)
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
+        tdelta = pd.to_timedelta(self.config['time']['time_step'], unit='min')
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
 
+        # the model counts the time from the start date with one data time
+        # step for each record
+        expected = pd.date_range(
+            self.start_date, periods=len(input_data), freq=tdelta)
+        if not input_data.index.equals(expected):
+            raise ValueError(
+                'Input data does not have one record for each data time step '
+                'from the start date on')
+
         # convert to Kelvin
         input_data.precip_temp += FREEZE
         input_data.air_temp += FREEZE
-- 
2.43.0


From 67c3092a3ab8cf1ed7c4088202b1d7348f764c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 16/22] fix: a percent_snow outside 0 to 1 ran through the
 model unnoticed

The mass of rain or of snow became negative with it.
---
 pysnobal/point/input.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysnobal/point/input.py b/pysnobal/point/input.py
index f8aaab2..3fb3578 100644
--- a/pysnobal/point/input.py
+++ b/pysnobal/point/input.py
@@ -67,6 +67,12 @@ class InputData():
             if not math.isfinite(data[variable]):
                 raise ValueError('{} is not a finite number'.format(variable))
 
+        # it is the part of the precipitation that is snow, anything else
+        # would run through the model with negative rain or snow
+        if self.m_pp > 0 and not 0 <= self.percent_snow <= 1:
+            raise ValueError('percent_snow is not between 0 and 1: {}'.format(
+                self.percent_snow))
+
         # derived precip values
         self.m_snow = self.m_pp * self.percent_snow
         self.m_rain = self.m_pp - self.m_snow
-- 
2.43.0


From 61b469518ab2bb1d6996a02f7fad8eaf129f90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 17/22] fix: a negative wind speed turned the turbulent fluxes
 round

---
 pysnobal/point/libsnobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 4e75948..2f338ad 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -212,6 +212,10 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             "height not positive z0={}, zq={}, zu={}, za={}".format(
                 z0, zq, zu, za))
 
+    # a wind speed has no sign
+    if wind_speed < 0:
+        raise ValueError("wind_speed < 0: {}".format(wind_speed))
+
     # temperatures are Kelvin
     if (air_temp <= 0) or (surface_temp <= 0):
         raise ValueError("temps not K air_temp=%f\tsurface_temp=%f" %
-- 
2.43.0


From 72d5f6f18cc6acc79c2f520e685f6f0cf82bb396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 18/22] fix: time steps that do not divide each other evenly
 left time out

---
 pysnobal/pysnobal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 13d08c9..8169a1d 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -143,6 +143,16 @@ class PySnobal():
 
         # normal time step
         data_time_step = self.config['time']['time_step']
+
+        # part of the time would be left out otherwise
+        longer = data_time_step
+        for i in range(3):
+            if time_step[i] <= 0 or longer % time_step[i] != 0:
+                raise ValueError(
+                    '{}_time_step of {} minutes does not divide {} minutes '
+                    'evenly'.format(config_names[i], time_step[i], longer))
+            longer = time_step[i]
+
         tstep_info[NORMAL_TSTEP].update({
             'intervals': int(data_time_step /
                              time_step[NORMAL_TSTEP]),
-- 
2.43.0


From 0f8b364d60dae4e4cb4e67f014387c948c063869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 19/22] fix: saturation functions for arrays leave the array of
 the caller alone

---
 pysnobal/point/libsnobal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 2f338ad..1e3bb23 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -36,8 +36,8 @@ def satw_np(tk):
         saturated vapor pressure over water
     """
 
-    # remove bad values
-    tk[tk < 0] = np.nan
+    # remove bad values, but leave the array of the caller alone
+    tk = np.where(tk < 0, np.nan, tk)
 
     btk = BOIL/tk
     x = -7.90298*(btk - 1.0) + 5.02808*np.log(btk)/LOG_10 - \
@@ -60,8 +60,8 @@ def sati_np(tk):
     20151027 Scott Havens
     """
 
-    # remove bad values
-    tk[tk < 0] = np.nan
+    # remove bad values, but leave the array of the caller alone
+    tk = np.where(tk < 0, np.nan, tk)
 
     # preallocate
     x = np.empty(tk.shape)
-- 
2.43.0


From bf468603eb16f07a548725826c029bd74b523f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:31 +0000
Subject: [PATCH 20/22] fix: a negative precipitation mass was taken for none

---
 pysnobal/point/input.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/point/input.py b/pysnobal/point/input.py
index 3fb3578..5e15b23 100644
--- a/pysnobal/point/input.py
+++ b/pysnobal/point/input.py
@@ -67,6 +67,10 @@ class InputData():
             if not math.isfinite(data[variable]):
                 raise ValueError('{} is not a finite number'.format(variable))
 
+        # it would count as no precipitation at all
+        if self.m_pp < 0:
+            raise ValueError('m_pp is negative: {}'.format(self.m_pp))
+
         # it is the part of the precipitation that is snow, anything else
         # would run through the model with negative rain or snow
         if self.m_pp > 0 and not 0 <= self.percent_snow <= 1:
-- 
2.43.0


From 88b67ac4298adc236c27398b5c610349615df2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 21/22] fix: initial snow without meaning ran into negative or
 missing mass

---
 pysnobal/point/snobal.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 3dde5b9..fc84f06 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -53,6 +53,7 @@ class Snobal(object):
 
         # get the initial snowcover properties and initialize
         self.snow_records = inital_conditions
+        self.check_initial_conditions()
         self.create_snow_state(SnowState)
         self.init_snow()
 
@@ -1219,6 +1220,32 @@ class Snobal(object):
             self.snow_state.h2o = self.snow_state.h2o_sat * \
                 self.snow_state.h2o_max
 
+    def check_initial_conditions(self):
+        """Check that the initial snow properties have a meaning, the model
+        would turn them into negative or missing masses otherwise.
+        """
+
+        snow = {'z_s': 0, 'rho': 0, 't_s_0': 0, 't_s': 0, 'h2o_sat': 0}
+        snow.update(self.snow_records)
+
+        for variable in ['z_s', 'rho']:
+            if not 0 <= snow[variable] < np.inf:
+                raise ValueError('Initial {} is negative or not finite: '
+                                 '{}'.format(variable, snow[variable]))
+
+        # the other properties are those of the snow
+        if snow['z_s'] * snow['rho'] > 0:
+            for variable in ['t_s_0', 't_s']:
+                if not 0 < snow[variable] <= FREEZE:
+                    raise ValueError(
+                        'Initial {} is not between 0 K and freezing: '
+                        '{}'.format(variable, snow[variable]))
+
+            if not 0 <= snow['h2o_sat'] <= 1:
+                raise ValueError(
+                    'Initial h2o_sat is not between 0 and 1: {}'.format(
+                        snow['h2o_sat']))
+
     def create_snow_state(self, snow_state_class, from_record=True):
         """Create the snow state from the given snow state class.
 
-- 
2.43.0


From ac3f0d5bd80d1d88257f464558e281dbf31f52d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:33 +0000
Subject: [PATCH 22/22] fix: parameters without meaning lost the snow or warmed
 it above freezing

---
 pysnobal/point/snobal.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index fc84f06..0af8ecc 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -32,6 +32,8 @@ class Snobal(object):
             meas_height: measurement heights
         """
 
+        self.check_parameters(params, meas_heights)
+
         self.params = params
         self.tstep_info = tstep_info
 
@@ -1220,6 +1222,27 @@ class Snobal(object):
             self.snow_state.h2o = self.snow_state.h2o_sat * \
                 self.snow_state.h2o_max
 
+    def check_parameters(self, params, meas_heights):
+        """Check the parameters that the model divides by or takes as a part,
+        the snow would get lost or too warm otherwise.
+
+        Args:
+            params: dictionary of parameters to run the model
+            meas_heights: measurement heights
+        """
+
+        if not params['max_z_s_0'] > 0:
+            raise ValueError('Depth of the active layer is not positive: '
+                             '{}'.format(params['max_z_s_0']))
+
+        if not 0 <= params['max_h2o_vol'] <= 1:
+            raise ValueError('Maximum liquid water content is not between 0 '
+                             'and 1: {}'.format(params['max_h2o_vol']))
+
+        if not meas_heights['z_g'] > 0:
+            raise ValueError('Depth of the soil temperature is not positive: '
+                             '{}'.format(meas_heights['z_g']))
+
     def check_initial_conditions(self):
         """Check that the initial snow properties have a meaning, the model
         would turn them into negative or missing masses otherwise.
-- 
2.43.0

