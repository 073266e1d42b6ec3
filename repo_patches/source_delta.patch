From 6b30821b40e3b6343394931699cbbb331063c0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 01/43] fix: bi-zoned prefix fields use the spacing of the
 matching land side

---
 ghedt/domains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..9a8926b 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -288,8 +288,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From 5d77ee168e8c7c62f2c4ac6daaf2c4c558bf364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 02/43] fix: transpose the first field of a zoned rectangle
 domain

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 9a8926b..2300ce0 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -212,6 +212,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
-- 
2.43.0


From c5b581da8633e03c5a611324a04cf3e4806be9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 03/43] fix: number_of_boreholes is exact for a whole number of
 spacings

---
 ghedt/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..ce60838 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -77,7 +77,9 @@ def make_rectangle_perimeter(length_x, length_y, origin=(0, 0)):
 
 
 def number_of_boreholes(length, B, func=np.ceil):
-    N = func(length / B) + 1
+    # Round away floating point noise, so that a length which is a whole number
+    # of spacings neither loses nor gains a borehole
+    N = func(round(length / B, 9)) + 1
     return int(N)
 
 
-- 
2.43.0


From aacb3408bea6fe6f06fe32b902d5d8118bb21b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 04/43] fix: borehole counts of the rectangular domains ignore
 floating point noise

---
 ghedt/domains.py | 46 +++++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2300ce0..255a155 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -40,12 +40,9 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
         transpose = True
 
     rectangle_domain = []
-    # find the maximum number of boreholes as a float
-    n_1_max = (length_1 / B_min) + 1
-    n_1_min = (length_1 / B_max) + 1
-
-    N_min = int(np.ceil(n_1_min).tolist())
-    N_max = int(np.floor(n_1_max).tolist())
+    # find the minimum and maximum number of boreholes
+    N_min = dt.utilities.number_of_boreholes(length_1, B_max, func=np.ceil)
+    N_max = dt.utilities.number_of_boreholes(length_1, B_min, func=np.floor)
 
     n_2_old = 1
 
@@ -57,7 +54,7 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     for N in range(N_min, N_max+1):
         # Check to see if we bracket
         B = length_1 / (N - 1)
-        n_2 = int(np.floor((length_2 / B) + 1))
+        n_2 = dt.utilities.number_of_boreholes(length_2, B, func=np.floor)
 
         if iter == 0:
             for i in range(1, N_min):
@@ -108,19 +105,15 @@ def bi_rectangular(
         return n - _n
 
     bi_rectangle_domain = []
-    # find the maximum number of boreholes as a float
-    n_1_max = (length_1 / B_min) + 1
-    n_1_min = (length_1 / B_max_1) + 1
-
     # if it is the first case in the domain, we want to step up from one
     # borehole, to a line, to adding the rows
     iter = 0
 
-    N_min = int(np.ceil(n_1_min).tolist())
-    N_max = int(np.floor(n_1_max).tolist())
+    N_min = dt.utilities.number_of_boreholes(length_1, B_max_1, func=np.ceil)
+    N_max = dt.utilities.number_of_boreholes(length_1, B_min, func=np.floor)
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+        n_2 = dt.utilities.number_of_boreholes(length_2, B_max_2, func=np.ceil)
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
@@ -171,12 +164,9 @@ def bi_rectangle_nested(length_x, length_y, B_min, B_max_x, B_max_y,
         B_max_2 = B_max_x
         transpose = True
 
-    # find the maximum number of boreholes as a float
-    n_2_max = (length_2 / B_min) + 1
-    n_2_min = (length_2 / B_max_2) + 1
-
-    N_min = int(np.ceil(n_2_min).tolist())
-    N_max = int(np.floor(n_2_max).tolist())
+    # find the minimum and maximum number of boreholes
+    N_min = dt.utilities.number_of_boreholes(length_2, B_max_2, func=np.ceil)
+    N_max = dt.utilities.number_of_boreholes(length_2, B_min, func=np.floor)
 
     bi_rectangle_nested_domain = []
 
@@ -265,18 +255,12 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
         B_max_2 = B_max_x
         transpose = True
 
-    # find the maximum number of boreholes as a float
-    n_1_max = (length_1 / B_min) + 1
-    n_1_min = (length_1 / B_max_1) + 1
-
-    n_2_max = (length_2 / B_min) + 1
-    n_2_min = (length_2 / B_max_2) + 1
-
-    N_min_1 = int(np.ceil(n_1_min).tolist())
-    N_max_1 = int(np.floor(n_1_max).tolist())
+    # find the minimum and maximum number of boreholes along each side
+    N_min_1 = dt.utilities.number_of_boreholes(length_1, B_max_1, func=np.ceil)
+    N_max_1 = dt.utilities.number_of_boreholes(length_1, B_min, func=np.floor)
 
-    N_min_2 = int(np.ceil(n_2_min).tolist())
-    N_max_2 = int(np.floor(n_2_max).tolist())
+    N_min_2 = dt.utilities.number_of_boreholes(length_2, B_max_2, func=np.ceil)
+    N_max_2 = dt.utilities.number_of_boreholes(length_2, B_min, func=np.floor)
 
     bi_rectangle_zoned_nested_domain = []
 
-- 
2.43.0


From aab40a8c675697c32f5f8272e52d45c3664313e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 05/43] fix: the near-square domain ends with the upper x upper
 square

---
 ghedt/domains.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 255a155..0269fbf 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -20,6 +20,9 @@ def square_and_near_square(lower: int,
 
     for i in range(lower, upper+1):
         for j in range(2):
+            # The largest field in the domain is the upper x upper square
+            if i + j > upper:
+                break
             coordinates = \
                 dt.coordinates.rectangle(i, i+j, B, B)
 
-- 
2.43.0


From a88a2391cb7f57b80296175f94bb2163b64a23f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 06/43] fix: reorder_domain keeps every field when borehole
 counts tie

---
 ghedt/domains.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 0269fbf..86fd8dc 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -394,21 +394,7 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
-
-    return reordered_domain
+    return sorted(domain, key=len)
 
 
 def visualize_domain(domain, output_folder_name):
-- 
2.43.0


From c2af7996fc01a8ce6eff593aa5bce85b2603b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 07/43] fix: drop fields that the no-go zone leaves without a
 borehole

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 86fd8dc..c5c7720 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -365,6 +365,8 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
-- 
2.43.0


From d6beddd46d3aa7c9b36324ef37bbdf015d4af8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 08/43] fix: remove_cutout without a boundary removes nothing

---
 ghedt/feature_recognition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..53d5fd3 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -16,8 +16,9 @@ def scale_coordinates(coordinates, scale):
 
 def remove_cutout(coordinates, boundary=None, remove_inside=True,
                   keep_contour=True):
-    if boundary is None:
-        boundary = []
+    # Without a boundary there is nothing to remove
+    if boundary is None or len(boundary) == 0:
+        return list(coordinates)
 
     # cv2.pointPolygonTest only takes integers, so we scale by 10000 and then
     # scale back to keep precision
-- 
2.43.0


From b3e8e98ece2aa2df27243d065eff9b8627623397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 09/43] fix: a peak in the first hour of a day belongs to that
 day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..f6b411e 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,13 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), or 0 if there is
+            # no load in the month
+            if self.monthly_peak[i] > 0.:
+                self.monthly_peak_day[i] = month_loads.index(
+                    self.monthly_peak[i]) // hours_in_day + 1
+            else:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From e437fb577db654b938fbe3a9135adc19557461bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 10/43] fix: a month with both peaks on one day keeps its
 energy

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index f6b411e..7d22d80 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -601,6 +601,10 @@ class HybridLoad:
                 # This is also used for the case where ipf[i] is False
                 # A more sophisticated default could be use, like placing the
                 # peaks on the 10th and 20th
+                # Since no peaks are placed, the entire energy of the month is
+                # applied at the average rate
+                mrate = (cl.monthly_total[mi] - hl.monthly_total[mi]) / \
+                    (monthdays(mi) * 24)
                 lastavghour = lastmonthhour(i)
                 self.load = np.append(self.load, mrate)
                 self.hour = np.append(self.hour, lastavghour)
-- 
2.43.0


From 292485da5d573b05f58cc7a38b96774473f5a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 11/43] fix: peak durations of loads whose two-day maximum
 slightly exceeds the peak

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 29 ++++++-------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 7d22d80..b91bf2e 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -260,27 +260,14 @@ class Loads:
             # two day cooling loads (or heat rejection) in kWh
             current_two_day_load = [0.] + self.monthly_two_day_hourly_peak[i]
 
-            # This tolerance applies to the difference between the current
-            # months peak load and the maximum of the two-day load. If the
-            # absolute value of the difference between the current months
-            # peak load and the current two-day peak load is within this
-            # tolerance, then the maximum of the two-day load is equal to the
-            # maximum of the current month. If the absolute difference is
-            # greater than the tolerance, then the two-day peak load contains
-            # a load greater than the current months peak load. The tolerance
-            # could ONLY be exceeded when the first 24 hours is located in the
-            # previous month.
-            tol = 0.1
-
             # Ensure the peak load for the two-day load profile is the same or
-            # greater than the monthly peak load. This check is done in case
-            # the previous month contains a higher load than the current month.
-            load_diff = self.monthly_peak[i] - max(current_two_day_load)
+            # greater than the monthly peak load. The two-day profile contains
+            # a load greater than the current months peak load, however
+            # slightly, when its first 24 hours are located in the previous
+            # month.
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
-                current_month_peak_cl = self.monthly_peak[i]
-            else:
-                current_month_peak_cl = max(current_two_day_load)
+            current_month_peak_cl = \
+                max(self.monthly_peak[i], max(current_two_day_load))
 
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
@@ -345,7 +332,9 @@ class Loads:
             hour_time, q_nominal, g_sts, Rb, two_pi_k, ts)
         two_day_fluid_temps_nm.append(dT_fluid_nm)
 
-        dT_fluid_nm_max = max(dT_fluid_nm)
+        # The nominal response to loads that never exceed the peak is bound by
+        # the peak response. Ensure that round-off does not take it beyond.
+        dT_fluid_nm_max = min(max(dT_fluid_nm), max(dT_fluid_pk))
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-- 
2.43.0


From 43e3d0ee6edae18490fd4dfedf2681538b6a1db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 12/43] fix: hybrid time step peaks stay within their month and
 do not overlap

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b91bf2e..ee22508 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -542,20 +542,35 @@ class HybridLoad:
                 include_peak = False
 
             def _place_loads(order: List[Loads], sign: List[float], rate):
+                lastavghour = lastmonthhour(i)
+                # Hours taken by the peaks which are yet to be placed
+                _peak_hours = sum(o.monthly_peak_duration[mi] for o in order
+                                  if o.monthly_peak[mi] > 0)
                 for k, _ in enumerate(order):
                     if (order[k].monthly_peak[mi] > 0 and include_peak):
                         _first_hour_peak, _last_hour_peak = \
                             order[k].peak_hour_range(mi, i)
-                        self.load = np.append(self.load, rate)
-                        self.hour = np.append(self.hour, _first_hour_peak)
+                        # Long peaks near each other, or near the start or end
+                        # of the month, are shifted so that they do not overlap
+                        # with one another or reach into another month
+                        _first_hour_peak = max(
+                            min(_first_hour_peak, lastavghour - _peak_hours),
+                            self.hour[-1])
+                        _last_hour_peak = min(
+                            _first_hour_peak +
+                            order[k].monthly_peak_duration[mi], lastavghour)
+                        _peak_hours -= order[k].monthly_peak_duration[mi]
+                        if _first_hour_peak > self.hour[-1]:
+                            self.load = np.append(self.load, rate)
+                            self.hour = np.append(self.hour, _first_hour_peak)
                         # peak
                         self.load = np.append(
                             self.load, sign[k] * order[k].monthly_peak[mi])
                         self.hour = np.append(self.hour, _last_hour_peak)
                 # rest of month
-                lastavghour = lastmonthhour(i)
-                self.load = np.append(self.load, rate)
-                self.hour = np.append(self.hour, lastavghour)
+                if lastavghour > self.hour[-1]:
+                    self.load = np.append(self.load, rate)
+                    self.hour = np.append(self.hour, lastavghour)
 
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
-- 
2.43.0


From 8cec669f47bb10b434a7dc6a3472be9a4dce92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 13/43] fix: the hybrid simulation starts at time zero for any
 start month

---
 ghedt/ground_heat_exchangers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..0030672 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -296,7 +296,8 @@ class GHE(BaseGHE):
 
         if method == 'hybrid':
             Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
-            time_values = self.hybrid_load.hour[2:]  # convert to seconds
+            # Hours since the simulation started
+            time_values = self.hybrid_load.hour[2:] - self.hybrid_load.hour[1]
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-- 
2.43.0


From 079a94954b0c974042ab6c3af3271390eb1ec17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 14/43] fix: the hourly simulation covers exactly the simulated
 months

---
 ghedt/ground_heat_exchangers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 0030672..148aa69 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -301,13 +301,16 @@ class GHE(BaseGHE):
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-            n_months = \
-                self.sim_params.end_month - self.sim_params.start_month + 1
-            n_hours = int(n_months / 12. * 8760.)
+            # Hours of the simulated months, counted from the first January
+            first_hour = plat.ground_loads.firstmonthhour(
+                self.sim_params.start_month) - 1
+            last_hour = plat.ground_loads.lastmonthhour(
+                self.sim_params.end_month)
+            n_hours = last_hour - first_hour
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
             # How many times does q need to be repeated?
-            n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            n_years = int(np.ceil(last_hour / 8760))
+            Q_dot = (Q_dot * n_years)[first_hour:last_hour]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From 3cd77fa8d31df0e572b105016130b5b29af6553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 15/43] fix: solve_root takes the bound closest to the root
 when not bracketed

---
 ghedt/peak_load_analysis_tool/equivalance.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..f2eb9a5 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -38,17 +38,13 @@ def solve_root(x, objective_function, lower=None, upper=None,
     # bracketed
     minus = objective_function(lower)
     plus = objective_function(upper)
-    # get signs of upper and lower thermal conductivity bounds
-    kg_minus_sign = int(minus / abs(minus))
-    kg_plus_sign = int(plus / abs(plus))
-
-    # Solve the root if we can, if not, take the higher value
-    if kg_plus_sign != kg_minus_sign:
+    # Solve the root if we can, if not, take the bound closest to the root
+    if minus * plus <= 0.:
         x = brentq(objective_function, lower, upper,
                    xtol=xtol, rtol=rtol, maxiter=maxiter)
-    elif kg_plus_sign == -1 and kg_minus_sign == -1:
+    elif abs(plus) <= abs(minus):
         x = upper
-    elif kg_plus_sign == 1 and kg_minus_sign == 1:
+    else:
         x = lower
 
     return x
-- 
2.43.0


From 6875379800eba37eaf39daa5b6d3dfb58eb7ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 16/43] fix: sizing leaves the GHE at the solution height

---
 ghedt/ground_heat_exchangers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 148aa69..b5af658 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -338,10 +338,14 @@ class GHE(BaseGHE):
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
+        H = plat.equivalance.solve_root(
             self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
             upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
             maxiter=50)
+        # Leave the GHE at the solution, which need not be the height that the
+        # solver evaluated last
+        if self.bhe.b.H != H:
+            local_objective(H)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From 88f6e5485d6792df78d230728076a6e26f976d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:23 +0000
Subject: [PATCH 17/43] fix: the sign of zero is defined

---
 ghedt/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index ce60838..527aebc 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -100,8 +100,10 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1 (an excess temperature of 0 is acceptable, thus -1)
     """
+    if x == 0.:
+        return -1
     return int(abs(x) / x)
 
 
-- 
2.43.0


From ff1080618c277907879d397f51f28c68db750f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 18/43] fix: a new borehole flow rate or fluid updates all
 dependent resistances

---
 .../borehole_heat_exchangers.py               | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..7b0f218 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -91,20 +91,13 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then update it, and
+        # the resistances that depend on it, and use the new value
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(m_flow_borehole, fluid)
 
         R_b_star = self.effective_borehole_thermal_resistance(
-            m_flow_borehole, fluid.cp)
+            self.m_flow_borehole, self.fluid.cp)
 
         return R_b_star
 
@@ -144,6 +137,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, None)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -197,6 +192,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, self.config)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -401,6 +398,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = m_flow_borehole
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 62eb87c9b374211958efe5003e2e33d3900ef3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 19/43] fix: g-function interpolation does not depend on
 earlier queries

---
 ghedt/gfunction.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..94ba42c 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -157,12 +157,14 @@ class GFunction:
         if abs(H_eq - min(height_values)) < 1.0e-6:
             H_eq = min(height_values)
 
+        # The interpolation table is kept for later heights, any of which could
+        # require extrapolation
+        fill_value = 'extrapolate'
         if min(height_values) <= H_eq <= max(height_values):
-            fill_value = ''
+            pass
         elif abs(min(height_values) - H_eq) < 0.001:
-            fill_value = ''
+            pass
         else:
-            fill_value = 'extrapolate'
             warnings.warn('Extrapolation is being used.')
 
         # if the interpolation kind is default, use what we know about the
@@ -205,8 +207,9 @@ class GFunction:
             if required_curves > len(height_values):
                 kind = curves_by_kind[len(height_values)]
 
-        # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        # if the interpolation table is not yet know for this kind, build it
+        if self.interpolation_table.get('kind') != kind:
+            self.interpolation_table = {'kind': kind}
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From ca4959e91ad31a44c1f96bbad38b1b56c4b9a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 20/43] fix: a single g-function curve is only used for the
 height it belongs to

---
 ghedt/gfunction.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 94ba42c..0b20d2d 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -178,12 +178,7 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
-                    g_function = self.g_lts[height_values[0]]
-                    rb = self.r_b_values[height_values[0]]
-                    D = self.D_values[height_values[0]]
-                    return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From 3bbe2d0a715315a855e9439f5841f6fa575e1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 21/43] fix: combine g-functions whose short and long time
 steps share a time

---
 ghedt/ground_heat_exchangers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index b5af658..ad06c94 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -94,10 +94,8 @@ class BaseGHE:
         else:
             # find where to stop in sts
             i = 0
-            value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while log_time_sts[i] < min_log_time_lts:
                 i += 1
-                value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
             g = g_sts[0:i] + g_lts
 
-- 
2.43.0


From 3f16f52a7f123d1bc5da5381a19cec7dff6795f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 22/43] fix: hourly load representation places each peak on its
 own day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index ee22508..528cefa 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -38,6 +38,10 @@ def synthetic_load_function(
     # set the peak_load for a duration of peak_load_duration
     peak_load_start_hour = \
         math.floor(peak_day_noon - (float(peak_load_duration) / 2.))
+    # Long peaks do not reach into another month
+    peak_load_start_hour = max(
+        min(peak_load_start_hour, hours_in_previous_months + hours_in_month -
+            peak_load_duration), hours_in_previous_months)
     hourly_loads[peak_load_start_hour:
                  peak_load_start_hour + peak_load_duration] = \
         [peak_load] * peak_load_duration
@@ -667,14 +671,15 @@ class HybridLoad:
                 = int(round(cl.monthly_peak_duration[i]))
             peak_day_rej: int = cl.monthly_peak_day[i]
 
+            # the day before the peak day is the number of entire days before it
             synthetic_load_function(
                 hourly_extraction_loads, avg_hourly_load_ext, peak_load_ext,
-                peak_load_duration_ext, peak_day_ext, hours_in_previous_months,
-                hours_in_month)
+                peak_load_duration_ext, peak_day_ext - 1,
+                hours_in_previous_months, hours_in_month)
             synthetic_load_function(
                 hourly_rejection_loads, avg_hourly_load_rej, peak_load_rej,
-                peak_load_duration_rej, peak_day_rej, hours_in_previous_months,
-                hours_in_month)
+                peak_load_duration_rej, peak_day_rej - 1,
+                hours_in_previous_months, hours_in_month)
 
             # track the hours that have passed
             hours_in_previous_months += hours_in_month
-- 
2.43.0


From fe782255f1d30b752ad03da44a31c8ea53474011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 23/43] fix: scale the average synthetic rejection load

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 528cefa..67e6075 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -93,7 +93,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From 3dd442d94f9243b0de1885e6269b451bf7ee33ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 24/43] fix: the nested search starts from the first domain for
 its first field

---
 ghedt/search_routines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..b68dffd 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -251,8 +251,10 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (unless that very field is what was selected)
+        if selection_key > 0:
+            selection_key -= 1
+        inner_domain = coordinates_domain_nested[selection_key]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From c598dc4a695e9c2f267fac23fe60d306da0e7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 25/43] fix: only check the bi-rectangle inputs for the
 bi-rectangle routines

---
 ghedt/media.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/media.py b/ghedt/media.py
index 8345d29..088bd3c 100644
--- a/ghedt/media.py
+++ b/ghedt/media.py
@@ -30,7 +30,7 @@ class GeometricConstraints:
             assert self.length is not None
             assert self.B_min is not None
             assert self.B_max_x is not None
-        elif method == 'bi-rectangle' or 'bi-zoned':
+        elif method in ['bi-rectangle', 'bi-zoned']:
             assert self.width is not None
             assert self.length is not None
             assert self.B_min is not None
-- 
2.43.0


From 4233d85eeb7d9de3793956dc1f4c4e6d8473ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 26/43] fix: U_shape has both of its columns

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From 0c9cd4c591093c09cc943a278907d42437c2ed45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 27/43] fix: export a design with few short time step
 g-function values

---
 ghedt/search_routines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index b68dffd..2b4463a 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -400,6 +400,7 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     number_sts_g_values = 30
     sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                  number_sts_g_values).tolist())
+    sts_step_size = max(sts_step_size, 1)
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0


From c1181f38f30553e9cf1c92969e7051d21baeb081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 28/43] fix: report a design with few short time step
 g-function values

---
 ghedt/ground_heat_exchangers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index ad06c94..f20973c 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -263,6 +263,7 @@ class GHE(BaseGHE):
         number_sts_g_values = 50
         sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
                                      number_sts_g_values).tolist())
+        sts_step_size = max(sts_step_size, 1)
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
-- 
2.43.0


From 6c36215244e6eb825047ce406f8d6a4c68db341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 29/43] fix: polygon vertices are rounded, not truncated, to
 the scaled grid

---
 ghedt/feature_recognition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 53d5fd3..5aaa6cc 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -26,7 +26,8 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
     coordinates = scale_coordinates(coordinates, scale)
     boundary = scale_coordinates(boundary, scale)
 
-    _boundary = np.array(boundary, dtype=np.uint64)
+    # Round, since truncating would move a vertex when the scaling is inexact
+    _boundary = np.rint(boundary).astype(np.int32)
 
     # https://stackoverflow.com/a/50670359/11637415
     # Positive - point is inside the contour
-- 
2.43.0


From c509d05b5f10243619811e9161598d7127d6c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 30/43] fix: successive zoned search starts from an unbounded
 total drilling

---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 2b4463a..86b0573 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -309,7 +309,7 @@ class BisectionZD(Bisection1D):
 
         i = self.selection_key_outer
 
-        old_height = 99999
+        old_height = float('inf')
 
         while i < len(self.coordinates_domain_nested) and i < max_iter:
 
-- 
2.43.0


From c7615f12fc135e7e1780eec87f701d620af123dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 31/43] fix: order g-functions by height also within one metre

Heights were ordered by their integer part only.
---
 ghedt/gfunction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 0b20d2d..809808a 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -471,7 +471,7 @@ class GFunction:
         # every B-spacing should be the same for each file
         B = float(list(g_values.keys())[0].split('_')[0])
 
-        keys = sorted(list(g_tmp.keys()), key=int)  # sort the heights in order
+        keys = sorted(list(g_tmp.keys()))  # sort the heights in order
         # fill the g-function dictionary with sorted heights
         g = {key: g_tmp[key] for key in keys}
         # fill the burial depth dictionary with sorted heights
-- 
2.43.0


From 5da126a8557184fbdd4e562228a7e36cf737c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 32/43] fix: refuse a domain whose excess temperature is
 exactly zero

The search returned None instead of raising ValueError when the first field
more than suffices and an excess temperature is exactly zero.
---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 86b0573..7e2b9ad 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -147,7 +147,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
-- 
2.43.0


From 7d9293e409a98163d416e3223893ddee01c6bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:05 +0000
Subject: [PATCH 33/43] fix: the rectangular domain of a narrow strip includes
 its full line

A land too narrow for two rows at the widest spacing never got the line that
spans its length, so its largest field was one borehole short.
---
 ghedt/domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index c5c7720..6690964 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -47,7 +47,8 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     N_min = dt.utilities.number_of_boreholes(length_1, B_max, func=np.ceil)
     N_max = dt.utilities.number_of_boreholes(length_1, B_min, func=np.floor)
 
-    n_2_old = 1
+    # No rows yet: a strip too narrow for two rows still gets its full line
+    n_2_old = 0
 
     if disp:
         print(50 * '-')
-- 
2.43.0


From 0d02fbc4127a7272dc061b940cc97431249aba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:28 +0000
Subject: [PATCH 34/43] fix: a month without load has a negligible peak
 duration

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 67e6075..8c2fee2 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -276,7 +276,8 @@ class Loads:
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
 
-            if current_month_peak_cl != 0.0:
+            # A month without load has no peak, whatever the month before it
+            if self.monthly_peak[i] > 0.0:
                 peak_duration, q_peak, q_nominal = \
                     self.perform_current_month_simulation(
                         current_two_day_load, current_month_peak_cl,
-- 
2.43.0


From e28811c3854a6b04fe1bb0951358ec663d040a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 35/43] fix: a flat load does not gain a two day peak from
 round-off

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 8c2fee2..b4c3b76 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -341,7 +341,11 @@ class Loads:
         # the peak response. Ensure that round-off does not take it beyond.
         dT_fluid_nm_max = min(max(dT_fluid_nm), max(dT_fluid_pk))
 
-        if dT_fluid_nm_max > 0.0:
+        # A load that is always at its peak does not rise above its average. What
+        # remains of the difference is round-off.
+        flat_load = np.isclose(peak_load, avg_load, rtol=1.0e-12, atol=0.0)
+
+        if dT_fluid_nm_max > 0.0 and not flat_load:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
             peak_duration = f(dT_fluid_nm_max).tolist()
         else:
-- 
2.43.0


From b6a458b1d42bc37f920766d0dbfca3bbfc3b5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 36/43] fix: the report of a U-tube shows its Reynolds number

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 7b0f218..180103d 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -49,7 +49,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From 7ff1e3f0834650b5404da3e8d949c178cf4bb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 37/43] fix: each U-tube of a parallel configuration has an
 equal share of the flow

---
 .../borehole_heat_exchangers.py                       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 180103d..847f7df 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -10,8 +10,8 @@ class BasePipe(object):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, config, pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +78,12 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            # Every U-tube has an equal share of the flow
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
@@ -193,7 +194,7 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
         else:
             self.m_flow_borehole = m_flow_borehole
             self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
-                m_flow_borehole, self.config)
+                m_flow_borehole, self.config, self.pipe.n_pipes)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 721c93179ae4bf9eb836d401784d4c164643dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 38/43] fix: the pipe of an equivalent without a solution has
 the closest conductivity

---
 ghedt/peak_load_analysis_tool/equivalance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index f2eb9a5..ee8d479 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -103,8 +103,12 @@ def equivalent_single_u_tube(bhe, V_fluid, V_pipe, R_conv, R_pipe):
     k_p_upper = eq_single_u_tube.pipe.k * 10.
 
     # Solve for the mass flow rate to make the convection values equal
-    solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
-               lower=k_p_lower, upper=k_p_upper)
+    k_p = solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
+                     lower=k_p_lower, upper=k_p_upper)
+    # Without a solution, the pipe is left with the closest bound, which need
+    # not be the one that was evaluated last
+    if k_p == k_p_lower or k_p == k_p_upper:
+        eq_single_u_tube.pipe.k = k_p
 
     eq_single_u_tube.update_thermal_resistance()
 
-- 
2.43.0


From 5e7f9e5b726813921493014944f3edd29407553e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:09 +0000
Subject: [PATCH 39/43] fix: a search varies the height of a borehole of its
 own

---
 ghedt/search_routines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 7e2b9ad..a436241 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -17,6 +17,9 @@ class Bisection1D:
                  hourly_extraction_ground_loads: list, method: str = 'hybrid',
                  flow: str = 'borehole', max_iter=15, disp=False, search=True):
 
+        # The search varies the height of a borehole of its own
+        borehole = copy.deepcopy(borehole)
+
         # Take the lowest part of the coordinates domain to be used for the
         # initial setup
         coordinates = coordinates_domain[0]
-- 
2.43.0


From 5bad05f9f7b49a6037009368715fcc53a3799cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 40/43] fix: draw the hourly loads of each direction in
 visualize_hourly_heat_extraction

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b4c3b76..e6ce4c0 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -704,12 +704,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
-- 
2.43.0


From e16682f54d3ea27832d99e7d43d63f38e7253449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 41/43] fix: keep the two-day responses indexed by month when a
 month has no load

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index e6ce4c0..d70316b 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -285,6 +285,10 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # Keep the place of the month in the two-day responses
+                no_response = [0] * len(current_two_day_load)
+                self.monthly_two_day_fluid_temps_pk.append(no_response)
+                self.monthly_two_day_fluid_temps_nm.append(list(no_response))
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From beb85a5fe1bcd4040d7c4e632bfeff9f12b50c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 42/43] fix: draw the response of each direction under its own
 name

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index d70316b..c6f5152 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -776,40 +776,40 @@ class HybridLoad:
         hl = self.extraction
 
         if extraction:
-            # plot two day (48 hour) fluid temperatures for cooling with peak
+            # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_pk[month_num],
+                    hl.monthly_two_day_fluid_temps_pk[month_num],
                     'k--', label='Peak Extraction', zorder=0)
-            # plot two day (48 hour) fluid temperatures for cooling with nominal
+            # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
-                    cl.monthly_two_day_fluid_temps_nm[month_num],
+                    hl.monthly_two_day_fluid_temps_nm[month_num],
                     'b-', label='Extraction', zorder=1)
             # Draw horizontal line from max time to fluid sim
-            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
-                            cl.monthly_peak_duration[month_num])
-            pk_cl_duration = cl.monthly_peak_duration[month_num]
-            pk_cl_duration_rounded = round(pk_cl_duration, 1)
-            new_ticks.append(pk_cl_duration_rounded)
+            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
+                            hl.monthly_peak_duration[month_num])
+            pk_hl_duration = hl.monthly_peak_duration[month_num]
+            pk_hl_duration_rounded = round(pk_hl_duration, 1)
+            new_ticks.append(pk_hl_duration_rounded)
 
         if rejection:
-            # plot two day (48 hour) fluid temperatures for heating with peak
+            # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_pk[month_num],
+                    cl.monthly_two_day_fluid_temps_pk[month_num],
                     'k.', label='Peak Rejection', zorder=0)
-            # plot two day (48 hour) fluid temperatures for heating with nominal
+            # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
-                    hl.monthly_two_day_fluid_temps_nm[month_num],
+                    cl.monthly_two_day_fluid_temps_nm[month_num],
                     'r-.', label='Rejection', zorder=1)
-            draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
-                            hl.monthly_peak_duration[month_num])
-            # duration of monthly peak htg load in hours
-            pk_hl_duration = hl.monthly_peak_duration[month_num]
-            pk_hl_duration_rounded = round(pk_hl_duration, 1)
-            new_ticks.append(pk_hl_duration_rounded)
+            draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
+                            cl.monthly_peak_duration[month_num])
+            # duration of monthly peak clg load in hours
+            pk_cl_duration = cl.monthly_peak_duration[month_num]
+            pk_cl_duration_rounded = round(pk_cl_duration, 1)
+            new_ticks.append(pk_cl_duration_rounded)
 
         ax.set_xticks(list(ax.get_xticks()) + new_ticks)
 
-- 
2.43.0


From 47ccd393752fa39167146412a6063d548a6e50c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 43/43] fix: refuse the spacing of a field without boreholes
 with the intended ValueError

---
 ghedt/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 527aebc..1116acb 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -28,11 +28,11 @@ def Eskilson_log_times():
 # -----------------
 def borehole_spacing(borehole, coordinates):
     # Use the distance between the first pair of coordinates as the B-spacing
-    x_0, y_0 = coordinates[0]
     if len(coordinates) == 1:
         # Set the spacing to be the borehole radius if there's just one borehole
         B = copy.deepcopy(borehole.r_b)
     elif len(coordinates) > 1:
+        x_0, y_0 = coordinates[0]
         x_1, y_1 = coordinates[1]
         B = max(borehole.r_b,
                 np.sqrt((x_1 - x_0) ** 2 + (y_1 - y_0) ** 2))
-- 
2.43.0

