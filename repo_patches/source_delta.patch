From 24e0418ba27fd417db4f3c50b1aa699872ba982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 01/18] fix: honour the relative_heights option

The option was read into params but Snobal always treated the measurement
heights as heights above the soil.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..38779d2 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From a09b520bef8446a57163e4eff064b2407d6738f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 02/18] fix: convert the initial snow temperatures to Kelvin

The configuration gives t_s_0 and t_s in Celcius, but they were handed to
the model unconverted, i.e. a pack at 0 C started at 0 K.
---
 pysnobal/pysnobal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..283e728 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -212,6 +212,12 @@ class PySnobal():
         # measurement heights
         self.measurement_heights = self.config['measurement_heights']
 
+        # initial snow properties, temperatures from Celcius to Kelvin
+        self.initial_snow_properties = dict(
+            self.config['initial_snow_properties'])
+        for temperature in ['t_s_0', 't_s']:
+            self.initial_snow_properties[temperature] += FREEZE
+
     def parse_elevation(self):
         return self.config['topo']['elevation']
 
@@ -289,7 +295,7 @@ class PySnobal():
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            self.initial_snow_properties,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From 05e6f952f04e45463f6cb45def9a3209afe8d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 03/18] fix: initialize the lower layer temperature of a 2
 layer pack

The initial snow properties have no lower layer temperature, so a run
starting with 2 layers had a lower layer at 0 K and failed.
---
 pysnobal/point/snobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 38779d2..78eb9b7 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1215,6 +1215,10 @@ class Snobal(object):
 
         if from_record:
             self.snow_state.set_from_dict(self.snow_records)
+            if 't_s_l' not in self.snow_records:
+                # no lower layer temperature given, use the average
+                # temperature, the same as when a lower layer is added
+                self.snow_state.t_s_l = self.snow_state.t_s
             # self.snow_state.z_s = self.snow_records['z_s']
             # self.snow_state.rho = self.snow_records['rho']
             # self.snow_state.t_s_0 = self.snow_records['t_s_0']
-- 
2.43.0


From 0cffb4eb69d7390783ea3f898fc529a62e2647be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 04/18] fix: neutral stability raised an UnboundLocalError in
 hle1

The iteration count only exists when there is an iteration.
---
 pysnobal/point/libsnobal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..d072079 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,6 +257,9 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
+    # no convergence problem unless the iteration says so
+    ier = 0
+
     # if neutral stability ignore starting values and calculate
     if air_temp == surface_temp:
 
@@ -314,7 +317,7 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # if it > ITMAX:
             #     break
 
-    ier = -1 if (it >= ITMAX) else 0
+        ier = -1 if (it >= ITMAX) else 0
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From 4399ebf63f55693922e6d03f1430f116ae7941ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 05/18] fix: calm wind divided 0 by 0 in the stability
 iteration of hle1

Also when the iteration was started from the values of a calm.
---
 pysnobal/point/libsnobal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index d072079..313366b 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -260,8 +260,9 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     # no convergence problem unless the iteration says so
     ier = 0
 
-    # if neutral stability ignore starting values and calculate
-    if air_temp == surface_temp:
+    # if neutral stability ignore starting values and calculate, without
+    # wind there is no turbulence and therefore no transfer
+    if air_temp == surface_temp or wind_speed == 0:
 
         # starting value, assume neutral stability, so psi-functions
         # are all zero
@@ -276,13 +277,13 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
         # it = 0
         lo = 1e500
 
-        # initialize ustar and factor
-        if init_ustar is None:
+        # initialize ustar and factor, they are 0 after a calm
+        if not init_ustar:
             ustar = VON_KARMAN * wind_speed / ltsm
         else:
             ustar = init_ustar
 
-        if init_factor is None:
+        if not init_factor:
             factor = VON_KARMAN * ustar * dens
         else:
             factor = init_factor
-- 
2.43.0


From f2f887584269a93c2e9a04736d3eecc19b1eb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 06/18] fix: hle1 never reported that the iteration did not
 converge

The iteration count stops at ITMAX - 1, so the status was always 0 and
Snobal went on with fluxes of any size.
---
 pysnobal/point/libsnobal.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 313366b..9990af2 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -315,10 +315,13 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # it += 1
             if (np.abs(diff) < THRESH) and (np.abs(diff/lo) < THRESH):
                 break
-            # if it > ITMAX:
-            #     break
 
-        ier = -1 if (it >= ITMAX) else 0
+        else:
+            # used up all the iterations and still changing, the relative
+            # change decides as the absolute change of a large Obukhov
+            # length (near neutral) never gets below the threshold
+            if not np.abs(diff/lo) < THRESH:
+                ier = -1
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From 148add434b7cee821257397af327d70748b7a7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 07/18] fix: get the time delta of the input data after sorting
 it

The records are sorted as they can be in any order, but the time delta came
from the order in the file, e.g. a file in descending order lost the last
time steps of the simulation.
---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 283e728..7873431 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -238,8 +238,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 5a44ebc30aa31ce11d6ad5d2a3a00a24af1e80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 08/18] fix: start the model time at the first input record

With a start date before the first record, or between two records, all of
the output was stamped with times that are not the times of the input.
---
 pysnobal/pysnobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 7873431..6e833a4 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -246,6 +246,10 @@ class PySnobal():
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
 
+        # the model starts at the first record, which can be later than the
+        # start date
+        self.params['start_date'] = input_data.index[0]
+
         # convert to Kelvin
         input_data.precip_temp += FREEZE
         input_data.air_temp += FREEZE
-- 
2.43.0


From 9139c846d2707975df1a9b9f24047fc277609719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 09/18] fix: simulate the whole data time step

A normal time step shorter than the data time step was run once per input
record, e.g. 30 minutes of each hour. Time steps that do not divide evenly
lost time as well and are now rejected.
---
 pysnobal/pysnobal.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 6e833a4..b5e9f29 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -30,12 +30,12 @@ class PySnobal():
         # parse the input parameters
         self.parse_params()
 
-        # parse the time step parameters
-        self.parse_time_steps()
-
         # open the input files
         self.read_input_data()
 
+        # parse the time step parameters
+        self.parse_time_steps()
+
     def read_config_file(self, config_file):
         """
         Reads in the user's config file and checks
@@ -91,7 +91,7 @@ class PySnobal():
                     'output': {{ config.files.output_mode }},
                     'threshold': {{ config.model.norm_threshold }},
                     'time_step': {{ config.model.norm_time_step }},
-                    'intervals': 1
+                    'intervals': {{ data_tstep / norm_tstep }}
                     }
                 1: {
                     'level': 1,
@@ -124,6 +124,15 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        # each time step must divide the next longer one evenly, else part
+        # of the time would not be simulated
+        data_time_step = self.data_time_step
+        for longer, shorter in zip([data_time_step] + time_step, time_step):
+            if longer % shorter != 0:
+                raise ValueError(
+                    'time step of {} min does not divide the time step of '
+                    '{} min evenly'.format(shorter, longer))
+
         tstep_info = []
         config_names = ['norm', 'medium', 'small']
         for i in range(3):
@@ -143,27 +152,28 @@ class PySnobal():
 
         # normal time step
         tstep_info[NORMAL_TSTEP].update({
-            'intervals': 1,
-            'intervals_per_timestep': 1,
+            'intervals': int(data_time_step / time_step[NORMAL_TSTEP]),
+            'intervals_per_timestep': int(data_time_step /
+                                          time_step[NORMAL_TSTEP]),
         })
 
         # medium time step
         tstep_info[MEDIUM_TSTEP].update({
             'intervals': int(time_step[NORMAL_TSTEP] /
                              time_step[MEDIUM_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[MEDIUM_TSTEP]),
         })
 
         # small time step
         # Changed the interval meaning to number of intervals over
-        # the whole model timestep to allow for up front deltas
+        # the whole data timestep to allow for up front deltas
         # calculation. The original Snobal would divide the intervals
         # into the medium timestep
         tstep_info[SMALL_TSTEP].update({
             'intervals': int(time_step[MEDIUM_TSTEP] /
                              time_step[SMALL_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_time_step /
                                           time_step[SMALL_TSTEP]),
         })
 
@@ -195,6 +205,9 @@ class PySnobal():
         self.end_date = self.end_date.tz_localize(
             self.config['time']['time_zone'])
 
+        # time interval of the input data (minutes)
+        self.data_time_step = self.config['time']['time_step']
+
         # get the rest of the parameters
         params = {}
         params['start_date'] = self.start_date
@@ -249,6 +262,7 @@ class PySnobal():
         # the model starts at the first record, which can be later than the
         # start date
         self.params['start_date'] = input_data.index[0]
+        self.data_time_step = tdelta / np.timedelta64(1, 'm')
 
         # convert to Kelvin
         input_data.precip_temp += FREEZE
-- 
2.43.0


From f224a5c8abb5eeb0de2450a88ae1a966788a12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 10/18] fix: water of a disappearing snowcover was counted
 twice

When the last bit of snow turns into water, its mass already includes the
liquid water (and rain) that is in h2o_total.
---
 pysnobal/point/snobal.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 78eb9b7..20579ae 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -610,6 +610,11 @@ class Snobal(object):
                 self.adj_snow(
                     self.input1.z_snow, self.input1.m_pp)
 
+                # The snowcover with the precipitation is too little
+                # and all of it turned into water
+                if not self.snowcover:
+                    return
+
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
@@ -838,9 +843,9 @@ class Snobal(object):
             self.snow_state.rho = 0
 
             # if mass > 0, then it must be velow threshold.
-            # So turn this little bit of mass into water
-            if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total += self.snow_state.m_s
+            # So turn this little bit of mass into water, it already
+            # includes the liquid water that was in the snow
+            self.snow_state.h2o_total = max(self.snow_state.m_s, 0.0)
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From 636f2f89b9080eb6f78388dc49225932de97a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 11/18] fix: compaction at and above SWE_MAX ignored the time
 step length

A one minute time step compacted the snow as much as an hour.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 20579ae..bfabf6a 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -782,7 +782,7 @@ class Snobal(object):
             rate = 1.0
         else:
             rate = R1 * math.cos(np.pi * self.snow_state.m_s / SWE_MAX) + R2
-            rate = rate / (self.time_step / 3600.0)
+        rate = rate / (self.time_step / 3600.0)
 
         # Proportional Destructive Temperature Metamorphism (d_rho_m)
         if self.snow_state.rho < 100:
-- 
2.43.0


From 35b4dcd28d23a0cd76c22df0c89dc2b2e4656bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 12/18] fix: saturation of a snowcover without water capacity
 was 0/0

---
 pysnobal/point/snobal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index bfabf6a..521fc1f 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -341,8 +341,12 @@ class Snobal(object):
         else:
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
-            self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+            # a snowcover that can't hold water has nothing to saturate
+            if self.snow_state.h2o_max > 0.0:
+                self.snow_state.h2o_sat = self.snow_state.h2o / \
+                    self.snow_state.h2o_max
+            else:
+                self.snow_state.h2o_sat = 0.0
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From 1b710324e0118ca0578ceeb5d9394536ef07ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:18 +0000
Subject: [PATCH 13/18] fix: more snow melted than there was

---
 pysnobal/point/snobal.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 521fc1f..251be89 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -542,6 +542,13 @@ class Snobal(object):
             # layer count = 1
             Q_l = 0
 
+        # there can't be more melt than there is ice, the melt of all the ice
+        # is the end of the snowcover
+        ice = max(self.snow_state.m_s - self.snow_state.h2o_total, 0)
+        all_melted = self.snow_state.melt > ice
+        if all_melted:
+            self.snow_state.melt = ice
+
         self.snow_state.h2o_total += self.snow_state.melt
 
         # adjust layers for re-freezing
@@ -596,7 +603,9 @@ class Snobal(object):
             self.snow_state.h2o_total -= h2o_refrozen
 
         # adjust depth and density for melt
-        if self.snow_state.melt > 0:
+        if all_melted:
+            self.adj_snow(-self.snow_state.z_s, 0)
+        elif self.snow_state.melt > 0:
             self.adj_snow((-1)*self.snow_state.melt/self.snow_state.rho, 0)
 
     def precip_event(self):
-- 
2.43.0


From 5ef848bc945ad83c411011d66706b59262972b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 14/18] fix: hle1 accepted heights below the origin of the wind
 profile

---
 pysnobal/point/libsnobal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 9990af2..8d23798 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -238,6 +238,12 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     # displacement plane height, eq. 5.3 & 5.4
     d0 = 2 * PAESCHKE * z0 / 3
 
+    # the profiles begin at the roughness length above that plane
+    if min(zq, zu, za) - d0 <= z0:
+        raise ValueError(
+            "height too close to the surface z0={}, zq={}, zu={}, za={}".format(
+                z0, zq, zu, za))
+
     # constant log expressions
     ltsm = math.log((zu - d0) / z0)
     ltsh = math.log((za - d0) / z0)
-- 
2.43.0


From b383cd47d970998302f7f6ba4ab1906498d7ef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:18 +0000
Subject: [PATCH 15/18] fix: gaps between the records of the input data shifted
 the model time

---
 pysnobal/pysnobal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index b5e9f29..6c3ac69 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -252,13 +252,19 @@ class PySnobal():
 
         # get the time delta of the data
         input_data.sort_index(inplace=True)
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
+        tdelta = input_data.loc[self.start_date:].index.to_series(
+        ).diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
 
+        # every record is one time step after the one before
+        steps = input_data.index.to_series().diff().dropna()
+        if (steps != tdelta).any():
+            raise ValueError('The input data is not evenly spaced in time')
+
         # the model starts at the first record, which can be later than the
         # start date
         self.params['start_date'] = input_data.index[0]
-- 
2.43.0


From e15d295c89fca80ab273c0b8a4ff1adfeca27610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:39 +0000
Subject: [PATCH 16/18] fix: missing values of the input data were simulated

---
 pysnobal/pysnobal.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 6c3ac69..b260c50 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -305,6 +305,15 @@ class PySnobal():
 
         self.input_data = self.input_data.rename(columns=mapper)
 
+        # every record needs its values, those of the precipitation only
+        # matter if there is any
+        weather = self.input_data[
+            ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp']]
+        precip = self.input_data.loc[
+            self.input_data.m_pp > 0, ['percent_snow', 't_pp']]
+        if weather.isnull().values.any() or precip.isnull().values.any():
+            raise ValueError('The input data has missing values')
+
     def run(self):
         """
         mimic the main.c from the Snobal model
-- 
2.43.0


From e15dbfc2497105b0b293325f101e4d866571f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:17 +0000
Subject: [PATCH 17/18] fix: sums of grids were added up in the arrays of the
 values

---
 pysnobal/spatial/snow_state.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysnobal/spatial/snow_state.py b/pysnobal/spatial/snow_state.py
index a4f2cd2..86262f8 100644
--- a/pysnobal/spatial/snow_state.py
+++ b/pysnobal/spatial/snow_state.py
@@ -132,6 +132,7 @@ class SpatialSnowState(SnowState):
                               getattr(self, variable), time_step)
             setattr(self, bar_variable, ta)
 
-        self.E_s_sum += self.E_s
-        self.melt_sum += self.melt
-        self.swi_sum += self.swi
+        # new arrays, the sums can be the arrays of the values (see value_to_bar)
+        self.E_s_sum = self.E_s_sum + self.E_s
+        self.melt_sum = self.melt_sum + self.melt
+        self.swi_sum = self.swi_sum + self.swi
-- 
2.43.0


From 6ef87ccc53b74368cc8659b56ccf0e92eb1bc7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:46 +0000
Subject: [PATCH 18/18] fix: more snow evaporated than there was

---
 pysnobal/point/snobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 251be89..8901a14 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -482,7 +482,8 @@ class Snobal(object):
                 if self.snow_state.h2o_total <= 0.0:
                     self.snow_state.h2o_total = 0.0
 
-        self.snow_state.E_s = E_s_0 + E_s_l
+        # there can't be more evaporation than there is snow
+        self.snow_state.E_s = max(E_s_0 + E_s_l, -self.snow_state.m_s)
 
         # adj mass and depth for evap/cond
         if self.snow_state.snowcover:
-- 
2.43.0

