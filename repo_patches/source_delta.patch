From 1cf4efafb46dbe70d6eb73103590f73dd6f046f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 01/79] fix: before_next_day callbacks also fire at the end of
 a month

---
 demod/simulators/base_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..77d4ccf 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.date() != self.current_time.date():
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -986,7 +986,8 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        next_datetime = self.current_time + self.step_size
+        if next_datetime.date() != self.current_time.date():
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
-- 
2.43.0


From b07daef84fff046e78d1aa72ccc6aed1f01dce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 02/79] fix: refresh time callbacks also fire when the clock is
 not aligned with the refresh time

---
 demod/simulators/base_simulators.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 77d4ccf..5d0c769 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -802,6 +802,20 @@ class TimeAwareSimulator(Simulator):
         self.current_time += self.step_size
         super().step()
 
+    def _passes_refresh_time(self) -> bool:
+        """Check if the next step is the first one from the refresh time on.
+
+        Note:
+            The clock does not always fall exactly on the refresh time.
+        """
+        refresh_datetime = datetime.datetime.combine(
+            self.current_time.date(), self.data.refresh_time,
+            tzinfo=self.current_time.tzinfo
+        )
+        if refresh_datetime > self.current_time:
+            refresh_datetime -= datetime.timedelta(days=1)
+        return self.current_time - refresh_datetime < self.step_size
+
     def on_before_next_day(self) -> None:
         """Call back when current time passes a new day.
 
@@ -894,7 +908,7 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            if self.current_time.time() == self.data.refresh_time:
+            if self._passes_refresh_time():
                 self.on_before_refresh_time()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -909,9 +923,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            previous_time = self.current_time.time()
+            passes_refresh_time = self._passes_refresh_time()
             out = step_method(self, *args, **kwargs)
-            if previous_time == self.data.refresh_time:
+            if passes_refresh_time:
                 self.on_after_refresh_time()
             return out
         decorated_step.__doc__ = step_method.__doc__
-- 
2.43.0


From 397c72f73470f802569b3e40ad513fa758dc8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 03/79] fix: 4 am callbacks fire for any step size that passes
 4 am

---
 demod/simulators/base_simulators.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 5d0c769..5603bd7 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -879,6 +879,11 @@ class TimeAwareSimulator(Simulator):
 # Type for the step method of the simulators (variable input, None output)
 
 
+def _day_from_4am(current_time: datetime.datetime) -> datetime.date:
+    """Return the date of the day that started at the last 4 am."""
+    return (current_time - datetime.timedelta(hours=4)).date()
+
+
 class Callbacks():
     """Defines different Callbacks for TimeAwareSimulator children.
 
@@ -973,8 +978,8 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            next_hour = (self.current_time + self.step_size).hour
-            if next_hour == 4 and self.current_time.hour != 4:
+            next_datetime = self.current_time + self.step_size
+            if _day_from_4am(next_datetime) != _day_from_4am(self.current_time):
                 self.on_before_next_day_4am()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -989,9 +994,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self:TimeAwareSimulator, *args, **kwargs)-> None:
-            previous_hour = self.current_time.hour
+            previous_day = _day_from_4am(self.current_time)
             out = step_method(self, *args, **kwargs)
-            if self.current_time.hour == 4 and previous_hour != 4:
+            if _day_from_4am(self.current_time) != previous_day:
                 self.on_after_next_day_4am()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -1015,16 +1020,16 @@ def after_next_day_callback(step_method):
     return decorated_step
 def before_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        next_hour = (self.current_time + self.step_size).hour
-        if  next_hour == 4 and self.current_time.hour != 4:
+        next_datetime = self.current_time + self.step_size
+        if _day_from_4am(next_datetime) != _day_from_4am(self.current_time):
             self.on_before_next_day_4am()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_hour = self.current_time.hour
+        previous_day = _day_from_4am(self.current_time)
         out = step_method(self, *args, **kwargs)
-        if self.current_time.hour == 4 and previous_hour != 4:
+        if _day_from_4am(self.current_time) != previous_day:
             self.on_after_next_day_4am()
         return out
     return decorated_step
-- 
2.43.0


From e265746d23451554dc29180bfaae37d2ea5a2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 04/79] fix: clearness and irradiance of the CREST climate are
 scalars

Mixing the initial scalar with arrays of one element broke the daily
irradiance of CrestClimateSimulator with numpy>=1.24.
---
 demod/simulators/weather_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..1924545 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -151,9 +151,9 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-        self._clearness_state = monte_carlo_from_1d_cdf(
+        self._clearness_state = int(monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0])
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From 55e91d998a3c3421d3bf4cb43fe1aff4521855e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 05/79] fix: keep the irradiance computed by the initialization
 steps

CrestIrradianceSimulator reset the irradiance to its midnight value after
the initialization, even when the simulation starts during the day.
---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 1924545..2293b80 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From c7295a72f7093e9bc9df2364813e20902c608a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 06/79] fix: simulate the daily irradiance of
 CrestClimateSimulator from midnight

The irradiance simulator was started at start_datetime while its values are
read from midnight on, shifting the sun by the start time.
---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 2293b80..c465ed2 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -330,7 +330,10 @@ class CrestClimateSimulator(ClimateSimulator):
         kwargs.pop("logger", None)
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            # the days are simulated from midnight on
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From 705588931eb82e931ae1c508ce3c6e03adb401e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:45 +0000
Subject: [PATCH 07/79] fix: historical climate times are in utc also for aware
 start datetimes

The first time of the data was read as local time, which shifted RealClimate
by the utc offset and refused starts west of Greenwich.
---
 demod/simulators/weather_simulators.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index c465ed2..4a8ac84 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -636,11 +636,13 @@ class RealClimate(ClimateSimulator):
         self.temperature_iter = iter(climate_data['outside_temperature'])
 
         intialization_time = climate_data['datetime'][0].astype(
-            datetime.datetime
-        )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+            'datetime64[s]'
+        ).astype(datetime.datetime)
+        if start_datetime.tzinfo is not None:
+            # the times of the data are in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -764,9 +766,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # the times of the data are in utc
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 8f9aa6486b2546cd8c712e980b09d1828b947068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 08/79] fix: the copy of a logger is empty

It kept the length of the data that was not copied, so that it could not be
merged with an other new logger.
---
 demod/simulators/base_simulators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 5603bd7..40d4536 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -209,9 +209,7 @@ class SimLogger():
         Returns:
             An empty logger with the same attributes.
         """
-        new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
-        return new_logger
+        return SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
         """Visit a simulator object
-- 
2.43.0


From c3c3631d6092e6c8e9796c382310a52464c99e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 09/79] fix: SparseTPM refuses all inputs of different lengths

The & bound the lengths before they were compared.
---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..dd9a0cf 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -72,8 +72,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                and length == len(inds_to)
+                and length == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From 405feea51f3a25ad62bd07b5adab26abefee9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/79] fix: SparseTPM samples correctly from transitions given
 in any order

The flattened cdf of the Monte Carlo draw requires the transitions to be
sorted by their origin.
---
 demod/utils/sparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index dd9a0cf..3c1734b 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -80,6 +80,13 @@ class SparseTPM():
         self.inds_to = np.array(inds_to, dtype=np.uint16)
         self.values = np.array(values)
 
+        # sparse_monte_carlo requires the transitions sorted by origin
+        order = np.argsort(self.inds_from, kind='stable')
+        self.times = self.times[order]
+        self.inds_from = self.inds_from[order]
+        self.inds_to = self.inds_to[order]
+        self.values = self.values[order]
+
         if length == 0:  # an empty matrix
             n_states = 0
             n_times = 0
-- 
2.43.0


From 9f238f10e20b9020a4da7363385bb2b7e4e92c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 11/79] fix: SparseTPM.save keeps the number of states and
 times

States or times without transitions at the end were lost when loading.
---
 demod/utils/sparse.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 3c1734b..fea96ba 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -225,6 +225,8 @@ class SparseTPM():
         np.save(path+'_tpm_inds_from', self.inds_from)
         np.save(path+'_tpm_inds_to', self.inds_to)
         np.save(path+'_tpm_values', self.values)
+        # sizes, as the last times and states may have no transition
+        np.save(path+'_tpm_shape', np.array([self.n_times, self.n_states]))
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
@@ -242,4 +244,12 @@ class SparseTPM():
         inds_from = np.load(path+'_tpm_inds_from.npy', )
         inds_to = np.load(path+'_tpm_inds_to.npy', )
         values = np.load(path+'_tpm_values.npy', )
-        return SparseTPM(times, inds_from, inds_to, values)
+        try:
+            n_times, n_states = np.load(path+'_tpm_shape.npy', )
+        except FileNotFoundError:  # saved without the sizes
+            n_times, n_states = None, None
+
+        return SparseTPM(
+            times, inds_from, inds_to, values,
+            n_states=n_states, n_times=n_times
+        )
-- 
2.43.0


From 46cdf06be431d2221dd7004ca0bbb3b2c8ace6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 12/79] fix: clock of the time aware sparse simulators

The initialization steps were added to start_datetime, so that the clock ran
ahead and the wrong day types were loaded.
---
 demod/simulators/sparse_simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..5189dcc 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,10 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the initialization steps bring the time to the start
+            self.time = start_datetime - start_datetimestep * (
+                datetime.timedelta(minutes=10)
+            )
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From 871ab70c081cef2181a8caf97020ba4ef1c54eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 13/79] fix: sparse simulators update their states before the
 base step

The logger recorded the states before the update, and its visit left stale
values in the cache of the getters.
---
 demod/simulators/sparse_simulators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 5189dcc..2ca9395 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -299,16 +299,15 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
-
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
 
+        # update the time step
+        super().step()
+
 
 class SparseActivitySimulator(SparseStatesSimulator):
     """Should be able to simulate any kind of activitys.
-- 
2.43.0


From b2aa9bcc02d182e5f29814cd620a943b79712fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:57 +0000
Subject: [PATCH 14/79] fix: lost transitions are given the first state, not
 its label

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 2ca9395..a22baf7 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -578,7 +578,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From 1d5d6149f61c73f46702f51134249bf7ffbcac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 15/79] fix: quarters given by the sparse simulators go from 1
 to 4

---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index a22baf7..c3294dd 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -544,7 +544,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3 + 1
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From 470e04977e82afd1c852f122792932b5ad1ba50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:07 +0000
Subject: [PATCH 16/79] fix: new day TPMs start with the first step of the day

---
 demod/simulators/activity_simulators.py |  4 ++--
 demod/simulators/crest_simulators.py    | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..1fd2ca1 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -856,13 +856,13 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the tpms."""
         # Check if we want to update the tpms
         if self.time_aware:
diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..b1ec026 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,13 +307,13 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the TPMs for the new daytype.
 
         Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
+            The change of TPM must be performed before the first step
+            of the new day, so that every day goes through its TPMs at
+            the same times, whatever the day before it.
         """
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
@@ -335,7 +335,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From b66727e4ff0c7c7cb76ea0c0e55e621e40440e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:49 +0000
Subject: [PATCH 17/79] fix: Markov simulators are ready before their
 initialization steps and update before the base step

---
 demod/simulators/activity_simulators.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 1fd2ca1..ee557cc 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,6 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(start_time_step=start_time_step)
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -196,6 +195,9 @@ class MarkovChain1rstOrder(Simulator):
 
         self._set_tpm(self.transition_prob_matrices, checkcdf=checkcdf)
 
+        # performs the steps once everything is ready
+        super().initialize_starting_state(start_time_step=start_time_step)
+
     def _set_tpm(
         self, tpms: np.ndarray, checkcdf: bool = True,
         new_labels: np.ndarray = None
@@ -391,7 +393,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         """
         super().initialize_starting_state(
             starting_state_pdf,
-            start_time_step=start_time_step,
             checkcdf=checkcdf,
         )
         # Adds the time based
@@ -401,6 +402,11 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
 
+        # performs the steps once the durations are ready
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step
+        )
+
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
     ) -> None:
@@ -443,9 +449,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -474,6 +477,9 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         # update the time
         self.times_left -= 1
 
+        # Bypass the first order change of states
+        Simulator.step(self)
+
 
 class SubgroupsIndividualsActivitySimulator(
     ActivitySimulator,
-- 
2.43.0


From 47f31dd9825d301c72837f62bcae9fc671c42bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 18/79] fix: sparse_monte_carlo keeps the states it is given

---
 demod/utils/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index fea96ba..c5eff6d 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -195,6 +195,7 @@ class SparseTPM():
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
                 # change the dead states and resample a montecarlo draw
+                states = np.array(states)  # keeps the given states
                 states[
                     ~np.isin(states, self.inds_from[mask])
                 ] = self.dead_state_value
-- 
2.43.0


From 5e4d137791f413d10123fb089a2f1bf052833caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:01 +0000
Subject: [PATCH 19/79] fix: real population sampling with rounded cdf or empty
 subgroups

---
 demod/simulators/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..2496366 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -108,8 +108,11 @@ def sample_population(
     cdf = np.cumsum(pdf)
     check_valid_cdf(cdf)
     if population_sampling_algo == 'real_population':
-        lin_space = np.linspace(0, 1, n_samples)
+        # The end of the cdf can be rounded below 1
+        lin_space = np.linspace(0, cdf[-1], n_samples)
         inds = np.searchsorted(cdf, lin_space)
+        # 0 belongs to the first sample that is in the population
+        inds = np.maximum(inds, np.searchsorted(cdf, 0, side='right'))
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
     else:
-- 
2.43.0


From 67459d1af9dd8f2f03d2dc80f2a6f57ebc235054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:11 +0000
Subject: [PATCH 20/79] fix: subgroups without households in
 SubgroupsIndividualsActivitySimulator

---
 demod/simulators/activity_simulators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index ee557cc..7dc0725 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -596,6 +596,13 @@ class SubgroupsIndividualsActivitySimulator(
         # Check the subsimulator and define what should be done
         self._parse_subsimulator(subsimulator)
 
+        # Subgroups without households are not simulated
+        subgroups_list = [
+            subgroup for subgroup, n_households
+            in zip(subgroups_list, n_households_list) if n_households > 0
+        ]
+        n_households_list = [n for n in n_households_list if n > 0]
+
         # Read the subgroups
         unique_persons, persons_counted = self._parse_subgroups_input(
             subgroups_list, n_households_list,
-- 
2.43.0


From 39ac099d8892406ca5aa7df5c77046d6176b23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 21/79] fix: load_duration of a single one-dimensional profile

---
 demod/metrics/loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index ed79f54..aaf8c7b 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -251,7 +251,7 @@ def load_duration(
 
     if len(profiles.shape) == 1:
         # One dimensional input gets rearranged
-        profiles.reshape((1, -1))
+        profiles = profiles.reshape((1, -1))
 
     # First finds where the load is higher than loads
     mask_high = profiles[:, :, np.newaxis] >= loads[np.newaxis, np.newaxis, :]
-- 
2.43.0


From 9afe4d0544015072af5b9ca47c7e7a65c3cba97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 22/79] fix: normalized changes in demand are counted on
 normalized bins

---
 demod/metrics/loads.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index aaf8c7b..bbc55e5 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -175,8 +175,9 @@ def cumulative_changes_in_demand(
 
     max_change = np.max(changes)
 
-    if normalize:
-        changes /= max_change
+    if normalize and max_change > 0:
+        changes = changes / max_change
+        max_change = 1.
     if bin_edges is None:
         # Use linearly spaced bin_edges
         hist, bin_edges = np.histogram(
-- 
2.43.0


From 4455a8095176784aa08ef74a698cefc93f89a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:56 +0000
Subject: [PATCH 23/79] fix: changes in demand equal to the first edge are
 counted, empty last bins are kept

---
 demod/metrics/loads.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/loads.py b/demod/metrics/loads.py
index bbc55e5..9b403bf 100644
--- a/demod/metrics/loads.py
+++ b/demod/metrics/loads.py
@@ -185,10 +185,10 @@ def cumulative_changes_in_demand(
         )
     else:
         # Use the user specified bin_edges
-        if max_change >= bin_edges[-1]:
+        if max_change > bin_edges[-1]:
             raise ValueError((
                 "bin_edges largest value is {}, which is too small for the "
-                "largest value change {}. (must be striclty greater)."
+                "largest value change {}. (must be greater or equal)."
             ).format(bin_edges[-1], max_change))
         if np.min(changes) < bin_edges[0]:
             raise ValueError((
@@ -196,9 +196,7 @@ def cumulative_changes_in_demand(
                 "smallest value change {}. (must be smaller or equal)."
             ).format(bin_edges[0], np.min(changes)))
         # Counts where the transtions are in the bin_edges
-        hist = np.bincount(
-            np.searchsorted(bin_edges, changes)
-        )[1:]
+        hist, bin_edges = np.histogram(changes, bins=bin_edges)
     # Convert to cdf
     return np.cumsum(hist/np.sum(hist)), bin_edges
 
-- 
2.43.0


From d4ef35c38b1575dbdbddc541d291122426335428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 24/79] fix: durations of states that never change

---
 demod/metrics/states.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..f9a963a 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -50,11 +50,12 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # calculate the durations
     durations = np.roll(time_indices, -1) - time_indices
     # merging the beggining and end if possible they are the same activities
-    durations[indices_last_household] = (
-        states.shape[1]
-        - time_indices[indices_last_household]
-        + time_indices[indices_first_household]
-    )
+    if len(durations) > 0:  # Some household changes of state
+        durations[indices_last_household] = (
+            states.shape[1]
+            - time_indices[indices_last_household]
+            + time_indices[indices_first_household]
+        )
 
     # get the value of the new states
     corresponding_states = states[transitions_indices]
-- 
2.43.0


From 8d3c8fec50f794374caa16bbde9c403387c05d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 25/79] fix: compare durations of states that are only
 simulated or only measured

---
 demod/metrics/states.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index f9a963a..225e2fd 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -356,14 +356,17 @@ def state_duration_distribution_metric(
     dic_out = {}
     # Each state is handled separately
     for state in set((*dur_dict_sim.keys(), *dur_dict_mes.keys())):
-        # Finds the cdf of the duration for that state
+        # Finds the cdf of the duration for that state, which is 0 for
+        # a state that does not occur
+        dur_sim = dur_dict_sim.get(state, np.array([], dtype=int))
+        dur_mes = dur_dict_mes.get(state, np.array([], dtype=int))
         cdf_sim = np.cumsum(
-            np.bincount(dur_dict_sim[state], minlength=n_times + 1)
-            / len(dur_dict_sim[state])
+            np.bincount(dur_sim, minlength=n_times + 1)
+            / max(len(dur_sim), 1)
         )
         cdf_mes = np.cumsum(
-            np.bincount(dur_dict_mes[state], minlength=n_times + 1)
-            / len(dur_dict_mes[state])
+            np.bincount(dur_mes, minlength=n_times + 1)
+            / max(len(dur_mes), 1)
         )
         # Error between cdfs
         err = np.abs(cdf_sim - cdf_mes)
-- 
2.43.0


From 6c2f3ed54b05dbf4216a6b2289c9f475a1edb5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:42 +0000
Subject: [PATCH 26/79] fix: states_to_tpms counts the transitions

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..b84a2df 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -646,7 +646,7 @@ def states_to_tpms(
             axis=1, return_counts=True
         )
         # converts the indexes for accessing the matrix later
-        states_indices = [(i) for i in states_indices]
+        states_indices = tuple(states_indices)
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-- 
2.43.0


From 41d90b5a41055524b08269b535c9fe7bf67f2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 27/79] fix: persons of the secondary transitions in the same
 order as the states

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index b84a2df..8a81205 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From fd94f4fe4aac6a227548624289ae158cfe0ec468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:43 +0000
Subject: [PATCH 28/79] fix: counts_to_pdf keeps the counts it is given

---
 demod/utils/parse_helpers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 8a81205..f710e7b 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -591,6 +591,7 @@ def counts_to_pdf(counts: np.ndarray, ensure_valid_pdf=True):
     the pdf will be [1., 0. , ..., 0.]
     """
     if ensure_valid_pdf:
+        counts = np.array(counts)  # Keeps the given counts
         # Sums all the counts for the pdf
         s = counts.sum(axis=-1)
         indexes_zeros = list(np.where(s == 0))
-- 
2.43.0


From e8d44a376303c9ebd4c7a85e9d9449df059007eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:32 +0000
Subject: [PATCH 29/79] fix: nodes of the graph metrics are the observed states
 at their time

---
 demod/metrics/states.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 225e2fd..7f6f88d 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -185,8 +185,11 @@ def graph_metrics(
 
     times, source_nodes, end_nodes = np.where(directed_edges)
 
+    # The source is observed one step before the end (the first edges come
+    # from the end of the patterns)
+    source_times = (times - 1) % len(directed_edges)
     source_nodes_id = np.char.add(np.char.add(
-        np.array(times, dtype=str),
+        np.array(source_times, dtype=str),
         ['_' for i in range(len(times))]),
         np.array(source_nodes, dtype=str)
     )
-- 
2.43.0


From 59d7d776b4e15a27b385a26748bbc38f108dd47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:32 +0000
Subject: [PATCH 30/79] fix: network density counts the possible edges of all
 the observed times

---
 demod/metrics/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index 7f6f88d..63fbbdf 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -203,7 +203,7 @@ def graph_metrics(
     network_size = len(np.unique(np.c_[source_nodes_id, end_nodes_id]))
     network_density = len(source_nodes_id) / (
         # used nodes / the max number of nodes possible
-        (len(directed_edges)-1) * len(np.unique(source_nodes))**2
+        len(directed_edges) * len(np.unique(source_nodes))**2
     )
     centrality = np.mean(edge_weights)
     homophily = (
-- 
2.43.0


From 412abb059bfded14d6f0702989de92be1943ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:00 +0000
Subject: [PATCH 31/79] fix: counts_to_pdf accepts a single pdf without counts

---
 demod/utils/parse_helpers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index f710e7b..80c2030 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -594,10 +594,8 @@ def counts_to_pdf(counts: np.ndarray, ensure_valid_pdf=True):
         counts = np.array(counts)  # Keeps the given counts
         # Sums all the counts for the pdf
         s = counts.sum(axis=-1)
-        indexes_zeros = list(np.where(s == 0))
-        indexes_zeros.append(np.zeros_like(indexes_zeros[0]))
         # Corrects where there are zeros that should be converted
-        counts[tuple(indexes_zeros)] = 1
+        counts[s == 0, 0] = 1
 
     # Prepare sum for broadcasting
     shape = list(counts.shape)
-- 
2.43.0


From e4ab6aa4abd0e49656a655621c72865a5388b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:29 +0000
Subject: [PATCH 32/79] fix: Subgroup order follows its documentation

---
 demod/utils/subgroup_handling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/utils/subgroup_handling.py b/demod/utils/subgroup_handling.py
index 29f085a..0aafe53 100644
--- a/demod/utils/subgroup_handling.py
+++ b/demod/utils/subgroup_handling.py
@@ -37,9 +37,9 @@ class Subgroup(dict):
                 )
             )
         if len(other) > len(self):
-            return True
-        elif len(other) < len(self):
             return False
+        elif len(other) < len(self):
+            return True
         else:
             for key in sorted(list(self.keys()) + list(other.keys())):
                 if key not in other:
@@ -47,9 +47,9 @@ class Subgroup(dict):
                 if key not in self:
                     return False
                 if other[key] > self[key]:
-                    return True
-                if other[key] < self[key]:
                     return False
+                if other[key] < self[key]:
+                    return True
         return False
 
     def copy(self) -> Subgroup:
-- 
2.43.0


From 67bd51f6ccba4bdebd5aadd6c0388b72d0a4e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 33/79] fix: appliances of OccupancyApplianceSimulator stay on
 for their whole duration

---
 demod/simulators/appliance_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..8bac47c 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1245,11 +1245,15 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             np.random.uniform(size=switchon_probs.shape) < switchon_probs
         )
 
+        # Updates the variables before the switch on events, so that the
+        # appliances switched on now stay on for their whole duration
+        self.update_iteration_variables()
+
         self.switch_on(indexes_household, indexes_appliance)
 
-        self.switch_off_inactive(active_occupancy)
+        self.switch_off_inactive(active_occupancy_)
 
-        super().step()  # Updates the variables
+        TimeAwareSimulator.step(self)
 
 
 class SubgroupApplianceSimulator(OccupancyApplianceSimulator):
-- 
2.43.0


From a0250855e37e90cfd80c7644de71918cd9e9abf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 34/79] fix: OccupancyApplianceSimulator keeps the subgroups it
 is given

---
 demod/simulators/appliance_simulators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 8bac47c..51e8593 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1068,13 +1068,14 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
                 update using another value than the current time.
                 Defaults to datetime.timedelta(seconds=0).
         """
-        for subgroup in self.subgroups_list:
+        self.subgroups_list = [
             add_time(
-                subgroup,
+                subgroup.copy(),  # Keeps the subgroups given by the user
                 self.current_time + optional_increment,
                 *args,
                 **kwargs
-            )
+            ) for subgroup in self.subgroups_list
+        ]
 
     def switch_on(
         self, indexes_household: np.ndarray, indexes_appliance: np.ndarray
-- 
2.43.0


From a8aed872064bccfe21c521609fd5b4c7703c518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 35/79] fix: load patterns of ActivityApplianceSimulator begin
 at their start

---
 demod/simulators/appliance_simulators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 51e8593..d57e866 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1402,9 +1402,6 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                 np.repeat(hh_ind, len(app_ind)),
                 np.tile(app_ind, len(hh_ind)),
             )
-        # This is required for avoiding initialization
-        # where current_time = len(real load profile)
-        self.update_iteration_variables()
         # Turn on level appliances as they are always used
         self._is_used[:, np.isin(
             self.appliances['related_activity'], ALWAYS_ON_ACTIVITES
@@ -1427,6 +1424,10 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         TODO: check how we want to implement secondary appliances.
         """
+        # Updates the variables before the switch on events, so that the
+        # load patterns of appliances switched on now begin at their start
+        self.update_iteration_variables()
+
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
@@ -1461,7 +1462,7 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
         self.previous_act_dict = activities_dict.copy()
 
-        super().step()
+        TimeAwareSimulator.step(self)
 
     def update_iteration_variables(self):
         """Check the load patterns that arrive to an end to restart them."""
-- 
2.43.0


From c2445ffda0b9750a5fe8ffb8ce167ab61d117eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 36/79] fix: probabilistic appliances do not depend on reading
 their usage

---
 demod/simulators/appliance_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d57e866..5742a71 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1869,9 +1869,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         already simulated by the activity simulator so we don't need
         to do anything there.
         """
+        # The cached usage is the one from before this step
+        mask_off = self.n_steps_left[indexes_household, indexes_appliance] <= 0
         return (
             (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                mask_off
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
@@ -1885,8 +1887,10 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         Appliances that can be switched on only after another one
         or when activity stops.
         """
+        # The cached usage is the one from before this step
+        mask_off = self.n_steps_left[indexes_household, indexes_appliance] <= 0
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            mask_off
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From 15f0fd03da19da6d409d173fb1f62e251ca4b679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 37/79] fix: only appliances of the household start a following
 appliance

---
 demod/simulators/appliance_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 5742a71..f5ca22a 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1792,6 +1792,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
 
         turned_off_hh, turned_off_app = np.where(
             mask_decrement_time & ~(self.n_steps_left > 0)
+            & self.available_appliances
         )
         # Start the appliances that start after another appliance
         if 'previous_appliance_type' in self.appliances:
-- 
2.43.0


From 6a7a9a0463211cdc43539f174aafcdb2ce1b9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 38/79] fix: several appliances can follow another appliance

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index f5ca22a..f12255f 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1936,7 +1936,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From 6a8cacdf696003459da746d8225286d66aa94b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 39/79] fix: appliances start after activities without
 appliances of their own

---
 demod/simulators/appliance_simulators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index f12255f..87f444f 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1803,7 +1803,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            if not (
+                np.any(mask_apps_this_act)
+                # Some appliances can start after this activity
+                or act in self.appliances.get('previous_activity', [])
+            ):
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From d6e9dfc3d7c5a0abf5b492e01b49c4445e23308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:44 +0000
Subject: [PATCH 40/79] fix: load profiles of a type used by several kinds of
 appliances

---
 demod/simulators/appliance_simulators.py | 26 ++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 87f444f..293af04 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -422,7 +422,10 @@ class AppliancesSimulator(TimeAwareSimulator):
                 not_found_types.append(app_type)
                 continue  # Go to the next type
             # Finds the appliances of this type
-            mask_this_type = self.appliances['type'][app_id] == app_type
+            mask_this_type = (
+                (self.appliances['type'][app_id] == app_type)
+                & mask_variable_loads_activable[app_id]
+            )
             # Sample which load is assigned to each appliance
             sampled_app_id = np.random.randint(
                 0, len(real_loads_app_dict[app_type]),
@@ -495,7 +498,10 @@ class AppliancesSimulator(TimeAwareSimulator):
                 not_found_types.append(app_type)
                 continue  # Go to the next type
             # Finds the appliances of this type
-            mask_this_type = self.appliances['type'][app_id] == app_type
+            mask_this_type = (
+                (self.appliances['type'][app_id] == app_type)
+                & mask_variable_always_on_app[app_id]
+            )
             # Sample which load is assigned to each appliance
             sampled_app_id = np.random.randint(
                 0, len(real_loads_app_dict[app_type]),
@@ -514,13 +520,21 @@ class AppliancesSimulator(TimeAwareSimulator):
             self.load_duration[
                 hh_id[mask_this_type], app_id[mask_this_type]
             ] = load_durations[sampled_app_id]
-            # Store the loads available of each app type
+            # Store the loads available of each app type, after the ones
+            # of the appliances of this type that are switched on
+            loads = (
+                list(self.loads_dict.get(app_type, []))
+                + list(real_loads_app_dict[app_type].values())
+            )
+            self.corresponding_load_id[
+                hh_id[mask_this_type], app_id[mask_this_type]
+            ] += len(loads) - len(real_loads_app_dict[app_type])
             self.loads_dict[app_type] = np.zeros((
-                len(real_loads_app_dict[app_type]),  # number of diff. loads
+                len(loads),  # number of diff. loads
                 # Take the longest load as they have different lengths
-                max(load_durations)
+                max(len(load) for load in loads)
             ))
-            for i, load in enumerate(real_loads_app_dict[app_type].values()):
+            for i, load in enumerate(loads):
                 self.loads_dict[app_type][i, :len(load)] = load
 
         if len(not_found_types):
-- 
2.43.0


From ff4cf80e7186c7ac6c99b7838400774935e17f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:20 +0000
Subject: [PATCH 41/79] fix: switch-on probabilities of appliances starting
 after another activity

---
 demod/simulators/appliance_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 293af04..15a29e5 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1724,8 +1724,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     (sum(mask_hh_subgroup), sum(mask_this_act))
                 ).reshape(-1)
 
-                # special probs for one time probs #
-                ####################################
+            # special probs for one time probs #
+            ####################################
+            # Assigned after the ones of all the activities, as these
+            # appliances can be related to another activity
+            for activity in activity_prob.keys():
                 # After activity stops
                 mask_start_after_act = (
                     self.appliances['previous_activity'] == activity
-- 
2.43.0


From dabbae46c4301c4d965343ac9a7682011824cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:18 +0000
Subject: [PATCH 42/79] fix: unknown real_profiles_algo raises the documented
 error

---
 demod/simulators/appliance_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 15a29e5..8e978fd 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -371,8 +371,8 @@ class AppliancesSimulator(TimeAwareSimulator):
 
         if real_profiles_algo != 'uniform':
             raise ValueError(UNIMPLEMENTED_ALGO_IN_METHOD.format(
-                real_profiles_algo,
-                type(self).__name__ + '.sample_real_load_profiles'
+                algo=real_profiles_algo,
+                method=type(self).__name__ + '.sample_real_load_profiles'
             ) + "Only 'uniform' is implemented at the moment.")
 
         self._sample_switched_on_load_profiles()
-- 
2.43.0


From 6bd9c7b18492ae05de6d5cabbee850abc13f959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:04 +0000
Subject: [PATCH 43/79] fix: sets of appliances that do not match the subgroups
 are refused

---
 demod/simulators/appliance_simulators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 8e978fd..e0ab6f3 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -238,15 +238,15 @@ class AppliancesSimulator(TimeAwareSimulator):
             )
 
     def _appliance_set(self, equipped_set_defined):
+        if len(equipped_set_defined) != len(self.subgroups_list):
+            raise ValueError(
+                "The list of set of appliances does not match the list of subgroups "
+            )
         # List the ownership booleans for each population subgroup
         app_ownership_set = np.asarray([
             np.isin(self.appliances['name'], equipped_set_defined[n])
             for n, subgroup in enumerate(self.subgroups_list)
             ])
-        if len(app_ownership_set) != len(self.subgroups_list):
-            raise ValueError(
-                "The list of set of appliances does not match the list of subgroups "
-            )
         app_ownership_matrix =  app_ownership_set[self.hh_types]
         return app_ownership_matrix
 
-- 
2.43.0


From 724f5658bc21725ae816c1d0f7b3ae9ffb38a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:04 +0000
Subject: [PATCH 44/79] fix: unknown number of appliances is recognized
 whatever its nan object

---
 demod/utils/appliances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/appliances.py b/demod/utils/appliances.py
index 3db9f89..ae17f92 100644
--- a/demod/utils/appliances.py
+++ b/demod/utils/appliances.py
@@ -185,7 +185,7 @@ def assign_ownership_from_prob1_and_number(
         corresponds to the prob of owning
         a i-eth copy of the appliance.
     """
-    if number is np.nan:
+    if np.isnan(number):
         number = prob_1
     if (prob_1 > number) or (prob_1 < 0) or (prob_1 > 1) or (number < 0):
         raise ValueError(
-- 
2.43.0


From 0d4f96258fde8aa950b47763df1266998451528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 45/79] fix: default active occupancy of
 FisherLightingSimulator has one value per household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..80c205d 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From d04af7374306131bf7a38d01c2b76d14be2be3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:11 +0000
Subject: [PATCH 46/79] fix: CrestLightingSimulator updates its bulbs before
 the base step

---
 demod/simulators/lighting_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 80c205d..572da7b 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,6 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
+        super().step()
+
 
-- 
2.43.0


From cb9c984fde76ac63f1f3fb43bf6021be090d23ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 47/79] fix: variable thermostats accept their documented
 pattern and logger arguments

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..c1d4f17 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -184,7 +184,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_occupancy,
         initial_act_occ,
         start_datetime,
-        *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -197,8 +197,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
             pattern_attribution_method (str): kwarg that determine the method for the attribution of the
                 temperature patterns
         """
-        super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        super().__init__(n_households, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From 71dff34dda46d227b7c042c0ce5e91a8589dd0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 48/79] fix: heat demand of FiveModulesHeatingSimulator uses
 its step size

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index c1d4f17..3d7a933 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1682,6 +1682,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From bb50e67d68ef297412739a5042e4dde9d1a58081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 49/79] fix: external heat outputs given by the user are not
 modified

---
 demod/simulators/heating_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 3d7a933..5d6ea00 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1815,7 +1815,8 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            # a copy, other external outputs might be added
+            out_dict = dict(external_heat_outputs)
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
-- 
2.43.0


From 6e04bd5538a3b65cc8738ec2079d659eb611a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 50/79] fix: households without external heat output keep their
 own heating

---
 demod/simulators/heating_simulators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 5d6ea00..23c959d 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1770,6 +1770,13 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
+        # keeps nan where there is no external heating system
+        heat_outputs_dict["space_heating"] = np.where(
+            np.isnan(heat_output),
+            np.nan,
+            heat_outputs_dict["space_heating"],
+        )
+
         return heat_outputs_dict
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
-- 
2.43.0


From 4835efdd3f6f7542850dfdec30479184c9b38fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 51/79] fix: total heat output includes the external heat
 outputs

---
 demod/simulators/heating_simulators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 23c959d..efd1acc 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1949,6 +1949,9 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         heat_outputs = assign_external_dict(
             self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
         )
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
 
         self.building_sim.step(
             outside_temperature=outside_temperature,
-- 
2.43.0


From 793debe1ab9c18a9c9d1a615aa8b04143b8f55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 52/79] fix: consumption of heating systems without some of the
 outputs or fuels

---
 demod/simulators/heating_simulators.py | 27 +++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index efd1acc..5949483 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1428,13 +1428,17 @@ class HeatingSystem(Simulator):
     @cached_getter
     def get_fuel_consumptions(self) -> Dict[str, np.ndarray]:
         out_dict = {}
-        # check where the heating is occuring & ensure no future division by 0
-        heating_occurs = self.controls["heater_on"] & (
-            (self.max_Phi_h_space > 0) | (self.max_Phi_h_dhw > 0)
-        )
+        heating_occurs = self.controls["heater_on"]
         heat_outputs = self.get_heat_outputs()
         phi_space = heat_outputs["space_heating"]
         phi_dhw = heat_outputs["dhw"]
+        # ensure no division by 0 for outputs that the system does not have
+        max_phi_space = np.where(
+            self.max_Phi_h_space > 0, self.max_Phi_h_space, np.inf
+        )
+        max_phi_dhw = np.where(
+            self.max_Phi_h_dhw > 0, self.max_Phi_h_dhw, np.inf
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1444,8 +1448,8 @@ class HeatingSystem(Simulator):
                     self.dblFuelFlowRate
                     * 3600.  # m^3/ h -> m^3/ sec
                     * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
+                        phi_space / max_phi_space
+                        + phi_dhw / max_phi_dhw
                     ),
                     0,
                 )
@@ -1456,8 +1460,8 @@ class HeatingSystem(Simulator):
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
                     * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
+                        phi_space / max_phi_space
+                        + phi_dhw / max_phi_dhw
                     ),
                     0,
                 )
@@ -1480,7 +1484,12 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = np.divide(
+            gas * self.flow_rate_to_W,
+            self.dblFuelFlowRate,
+            out=np.zeros(self.n_households),
+            where=self.dblFuelFlowRate > 0,
+        )
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 9536c03045517175f386731b9be9bf754a8d7970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:42 +0000
Subject: [PATCH 53/79] fix: gas consumption is in m^3/s and its energy in W

---
 demod/simulators/heating_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 5949483..4630c98 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1446,7 +1446,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * (
                         phi_space / max_phi_space
                         + phi_dhw / max_phi_dhw
@@ -1483,9 +1483,9 @@ class HeatingSystem(Simulator):
         fuel_cons = self.get_fuel_consumptions()
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
-        # convert gas flow to Watts
+        # convert gas flow (m^3/ sec) to Watts
         gas = np.divide(
-            gas * self.flow_rate_to_W,
+            gas * 3600. * self.flow_rate_to_W,
             self.dblFuelFlowRate,
             out=np.zeros(self.n_households),
             where=self.dblFuelFlowRate > 0,
-- 
2.43.0


From ba3473782e4a626214652e2c6cc09392da9db3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:58 +0000
Subject: [PATCH 54/79] fix: temperatures returned at a step do not change with
 the next steps

---
 demod/simulators/heating_simulators.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 4630c98..a510eef 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -635,10 +635,11 @@ class BuildingThermalDynamics(Simulator):
         )
 
         # Update building thermal node temperatures for this time step
-        self.temperatures["building"] += d_T_b
-        self.temperatures["interior"] += d_T_i
-        self.temperatures["emitter"] += d_T_em
-        self.temperatures["cylinder"] += d_T_cyl
+        # (new arrays, the ones returned at previous steps are kept unchanged)
+        self.temperatures["building"] = self.temperatures["building"] + d_T_b
+        self.temperatures["interior"] = self.temperatures["interior"] + d_T_i
+        self.temperatures["emitter"] = self.temperatures["emitter"] + d_T_em
+        self.temperatures["cylinder"] = self.temperatures["cylinder"] + d_T_cyl
 
         return super().step()
 
-- 
2.43.0


From 1f5e97db57e575e63bf06fcab3949956af72e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:30 +0000
Subject: [PATCH 55/79] fix: logger of activity appliances starts with the
 appliances switched on

---
 demod/simulators/appliance_simulators.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index e0ab6f3..a9508cf 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1421,6 +1421,13 @@ class ActivityApplianceSimulator(AppliancesSimulator):
             self.appliances['related_activity'], ALWAYS_ON_ACTIVITES
         )] = True
 
+        # The starting state is only known now, so that the values recorded
+        # by the logger and cached before are replaced
+        self._cache.clear()
+        if self.logger:
+            self.logger.clear()
+            self.logger.visit_simulator(self)
+
     def _check_simulated_activities(self, activities_dict: ActivitiesDict):
         """One time check of matching simulated activities with appliances.
 
-- 
2.43.0


From 1a5717316b2ab9530f8823cce318a4e2bddeafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 56/79] fix: parsed climate of renewables ninja depends on the
 weighting

---
 demod/datasets/RenewablesNinja/loader.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index a195e7b..ff515f2 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -65,9 +65,14 @@ class NinjaRenewablesClimate(ClimateLoader):
         again, only for the selected country.
         """
         super().__init__(**kwargs)
-        # Creates the path for the requested country
+        # Creates the path for the requested country and weighting, as the
+        # raw data is different for each of them
+        self.country_code = (
+            country_name_to_code(country_name)
+            if not is_country_code(country_name) else country_name
+        )
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate, self.country_code + '_' + weighted_type)
         # creates the parsed path
         if not os.path.exists(self.parsed_path_climate):
             os.mkdir(self.parsed_path_climate)
@@ -80,12 +85,8 @@ class NinjaRenewablesClimate(ClimateLoader):
         self._check_download_raw_file(update_raw_data, weighted_type)
 
     def _check_download_raw_file(self, update_raw_data, weighted_type):
-        country_code = (
-            country_name_to_code(self.country)
-            if not is_country_code(self.country) else self.country
-        )
         self.raw_file_path = os.path.join(
-            self.raw_path, country_code + '_' + weighted_type + '.csv'
+            self.raw_path, self.country_code + '_' + weighted_type + '.csv'
         )
         # Check if the raw file already exists and should not be updated
         if os.path.isfile(self.raw_file_path) and not update_raw_data:
@@ -97,7 +98,7 @@ class NinjaRenewablesClimate(ClimateLoader):
             'merra-2_{weighted_type}_weighted.csv'
         )
         country_url = base_url + country_url_template.format(
-            country=country_code,
+            country=self.country_code,
             weighted_type=weighted_type
         )
         print('Downloading {} raw data from {}.'.format(
-- 
2.43.0


From eec77309d6f43b13b3f706ab922e3e8796700b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 57/79] fix: an interrupted download is not taken for the
 complete raw data

---
 demod/datasets/CREST/loader.py           |  7 ++-----
 demod/datasets/RenewablesNinja/loader.py |  6 +-----
 demod/datasets/base_loader.py            | 18 ++++++++++++++++++
 demod/datasets/tracebase/loader.py       |  8 ++------
 4 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 56e7582..2671c66 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -5,10 +5,8 @@ Loads data from the crest spreadsheet.
 
 from datetime import time, timedelta
 from sys import version
-import shutil
 import warnings
 import os
-from urllib import request
 from typing import Any, List, Tuple, Dict, Union
 
 import pandas as pd
@@ -99,9 +97,8 @@ class Crest(
                 raise ValueError('Unkonw Version {} of CREST.'.format(version))
             # Reads the url and  download the
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
-            with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
-                with open(self.raw_file_path, 'wb') as f:
-                    shutil.copyfileobj(response, f)
+            self._download_file(
+                DOWNLOAD_URL_BY_VERSION[version], self.raw_file_path)
 
     def load_population_subgroups(
         self, population_type: str = "crest",
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index ff515f2..9689ef2 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -8,8 +8,6 @@ from datetime import timedelta
 import os
 from typing import Any, Dict
 import urllib.request
-import shutil
-import zipfile
 
 import numpy as np
 import pandas as pd
@@ -114,9 +112,7 @@ class NinjaRenewablesClimate(ClimateLoader):
         request = urllib.request.Request(country_url, None, headers)
 
         # Reads the url and  download the
-        with urllib.request.urlopen(request) as response:
-            with open(self.raw_file_path, 'wb') as f:
-                shutil.copyfileobj(response, f)
+        self._download_file(request, self.raw_file_path)
         print('download finished')
         # Now the file is downloaded, we can remove old parsed data
         for f in os.listdir(self.parsed_path_climate):
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..b960429 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -10,6 +10,7 @@ from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
 import os
 import json
 import shutil
+import urllib.request
 from typing import Any, Dict, List, Tuple, Union
 import warnings
 
@@ -334,6 +335,23 @@ class DatasetLoader:
         else:
             np.save(file_path, array)
 
+    def _download_file(
+        self, url: Union[str, urllib.request.Request], file_path: str
+    ) -> None:
+        """Download a file, that is placed at file_path once complete.
+
+        If the download fails, file_path is left as it was.
+
+        Args:
+            url: The url or the request of the file to download.
+            file_path: The path where to place the file.
+        """
+        part_path = file_path + '.part'
+        with urllib.request.urlopen(url) as response:
+            with open(part_path, 'wb') as f:
+                shutil.copyfileobj(response, f)
+        os.replace(part_path, file_path)
+
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
         if not os.path.isdir(self.parsed_path):
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6363ed5..57477a8 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -15,8 +15,6 @@ ICT for Sustainability (SustainIT), 2012.
 """
 from datetime import datetime, timedelta
 import os
-import urllib.request
-import shutil
 from typing import Any
 import zipfile
 
@@ -116,16 +114,14 @@ class Tracebase(ApplianceLoader):
             os.mkdir(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
-        if update_raw_data:
+        if update_raw_data and os.path.isfile(raw_zip_filepath):
             os.remove(raw_zip_filepath)
         if not os.path.isfile(raw_zip_filepath):
             download_url = 'https://github.com/areinhardt/tracebase/archive/refs/heads/master.zip'
             print('Downloading tracebase raw data from {}.'.format(download_url))
             print('This can take some time.')
             # Reads the url and  download the zip archive
-            with  urllib.request.urlopen(download_url) as response:
-                with open(raw_zip_filepath, 'wb') as f:
-                    shutil.copyfileobj(response, f)
+            self._download_file(download_url, raw_zip_filepath)
             # Now the file is downloaded
             with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
                 zip_obj.extractall(self.raw_path)
-- 
2.43.0


From 7d6f8b8abf5c1a5997549434bee8df336d7f147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:10 +0000
Subject: [PATCH 58/79] fix: interpolated climate uses the seconds of the clock

---
 demod/simulators/weather_simulators.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 4a8ac84..c424251 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -737,7 +737,7 @@ class RealInterpolatedClimate(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
 
         self.datetime_values_utc = np.array(
-            climate_dict.pop('datetime'), dtype='datetime64[m]')
+            climate_dict.pop('datetime'), dtype='datetime64[us]')
         self.initial_time = self.datetime_values_utc[0]
         # Check where is the end of the data
         self.last_time = self.datetime_values_utc[-1].astype(datetime.datetime)
@@ -746,7 +746,10 @@ class RealInterpolatedClimate(ClimateSimulator):
             else datetime.timezone.utc
         )
         # must use real values for interp1d
-        minutes = (self.datetime_values_utc - self.initial_time).astype(float)
+        minutes = (
+            (self.datetime_values_utc - self.initial_time)
+            / np.timedelta64(1, 'm')
+        )
 
         self.interpolators = {
             key: interp1d(
@@ -806,13 +809,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
             # gets the relative position
             minute = (
-                np_current_time_utc
-                - self.initial_time
-            ).astype(float)
+                (np_current_time_utc - self.initial_time)
+                / np.timedelta64(1, 'm')
+            )
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From d20fad11536cea6546afc3b6343fd52e39d302aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 59/79] fix: daily temperatures follow the yearly cycle of
 their own day

---
 demod/simulators/weather_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index c424251..fb014d9 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -430,7 +430,9 @@ class CrestClimateSimulator(ClimateSimulator):
 
         # Calculate Td_model_Ar and Td_model_ARMA
         td = self.arma_dic["T_mean"] + self.arma_dic["T_std"] * math.sin(
-            360.0 * self.get_day_of_year() / 365.0 * math.pi / 180.0
+            # the irradiance is simulated for the day that comes
+            360.0 * self.irradiance_sim.get_day_of_year()
+            / 365.0 * math.pi / 180.0
             + self.arma_dic["T_shift"] / 365.0 * 2.0 * math.pi
         )
         self.Td_ar = td + self.ar
@@ -440,7 +442,9 @@ class CrestClimateSimulator(ClimateSimulator):
         # determine the extraterrestrial irradiance
         self.cSolarConstant = 1367 * (
             1
-            + (0.034 * math.cos(2 * math.pi * self.get_day_of_year() / 365.25))
+            + (0.034 * math.cos(
+                2 * math.pi * self.irradiance_sim.get_day_of_year() / 365.25
+            ))
         )
 
     def get_day_of_year(self):
-- 
2.43.0


From a833deb39784c0fa942d3980ff44b82890b1cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 60/79] fix: tracebase profiles do not end with an additional
 empty step

---
 demod/datasets/tracebase/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 57477a8..6eac5b8 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -193,7 +193,7 @@ class Tracebase(ApplianceLoader):
                 # Need to average over the load
                 sec_avg = int(self.step_size.total_seconds())
                 # Pad the array for resahping
-                n_pad = sec_avg - (len(load_second) % sec_avg)
+                n_pad = -len(load_second) % sec_avg
                 padded_load = np.append(load_second, np.zeros(n_pad))
                 # Compute the mean over the step size intervals
                 return padded_load.reshape((-1, sec_avg)).mean(axis=-1)
-- 
2.43.0


From e25000fbfb86bced1de449bba7f8425c0efc45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 61/79] fix: irradiance of renewables ninja is the one reaching
 the ground

---
 demod/datasets/RenewablesNinja/loader.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 9689ef2..22bbc2e 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -155,9 +155,8 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         out_dict['outside_temperature'] = np.array(df['temperature'])
 
-        radiation_direct = np.array(df['irradiance_surface'])
-        radiation_diffuse = np.array(df['irradiance_toa'])
-        # https://meteonorm.meteotest.ch/en/faq/definition-of-direct-and-diffuse-radiation
-        out_dict['irradiance'] = radiation_diffuse + radiation_direct
+        # Global irradiance at ground level, 'irradiance_toa' is the one
+        # at the top of the atmosphere
+        out_dict['irradiance'] = np.array(df['irradiance_surface'])
 
         return out_dict
-- 
2.43.0


From 14193a0f371f5c4e047b0e4f837c0eb753ccd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 62/79] fix: CREST dishwashers finish their cycle without
 active occupants

---
 demod/datasets/CREST/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 2671c66..d544bf8 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -327,11 +327,11 @@ class Crest(
         )
 
         appliances["inactive_switch_off"] = np.where(
-            np.logical_or(
+            np.logical_or.reduce((
                 associated_activity_use_profile == "ACT_WASHDRESS",
                 associated_activity_use_profile == "LEVEL",
                 appliances["name"] == "DISH_WASHER",
-            ),
+            )),
             False,
             True,
         )
-- 
2.43.0


From d2dfc166f77ca0aace3e5dcaca22abd6d488b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 63/79] fix: equal mean and deviation of the light threshold
 are read as written

---
 demod/datasets/CREST/loader.py           | 9 ++++++---
 demod/datasets/ExcellInputFile/loader.py | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index d544bf8..fc54531 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -601,11 +601,14 @@ class Crest(
         df = pd.read_excel(
             self.raw_file_path,
             sheet_name="light_config",
-            header=3,
+            # the values are not column names, equal ones would be renamed
+            header=None,
+            skiprows=3,
+            nrows=1,
             engine="openpyxl",
         )
-        crest_dict["irradiance_threshold_mean"] = float(df.columns[5])
-        crest_dict["irradiance_threshold_std"] = float(df.columns[6])
+        crest_dict["irradiance_threshold_mean"] = float(df.iloc[0, 5])
+        crest_dict["irradiance_threshold_std"] = float(df.iloc[0, 6])
 
         return crest_dict
 
diff --git a/demod/datasets/ExcellInputFile/loader.py b/demod/datasets/ExcellInputFile/loader.py
index 52867ba..83dede2 100644
--- a/demod/datasets/ExcellInputFile/loader.py
+++ b/demod/datasets/ExcellInputFile/loader.py
@@ -124,11 +124,12 @@ class InputFileLoader(ApplianceLoader, LoaderTOU, LightingLoader, HeatingLoader)
         df = pd.read_excel(
             self.raw_file_path,
             sheet_name="Lighting",
-            header=3,
+            # the values are not column names, equal ones would be renamed
+            header=None, skiprows=3, nrows=1,
             engine="openpyxl",
         )
-        crest_dict['irradiance_threshold_mean'] = float(df.columns[5])
-        crest_dict['irradiance_threshold_std'] = float(df.columns[6])
+        crest_dict['irradiance_threshold_mean'] = float(df.iloc[0, 5])
+        crest_dict['irradiance_threshold_std'] = float(df.iloc[0, 6])
 
         return crest_dict
 
-- 
2.43.0


From d8374881cdca05960ec36d0821a56c56670ecd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:11 +0000
Subject: [PATCH 64/79] fix: tracebase cycles that are never on with large
 steps are left out

---
 demod/datasets/tracebase/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6eac5b8..c07d58d 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -239,6 +239,9 @@ class Tracebase(ApplianceLoader):
                 if load_name in load_profiles_satisfying:
                     # Assume the load is where there are enough watts in profils
                     mask = np.where(load > 6)[0]
+                    if len(mask) == 0:
+                        # Averaged over large steps, it never looks on
+                        continue
                     # Take the boundaries of where the on load is
                     a, b = mask[[0, -1]]
                     if app_type not in dict_ON_profiles:
-- 
2.43.0


From 5e8cca367920546f53cfcced47a5aee439d8ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 65/79] fix: shipped CREST matrices are where the loader looks
 for them

The folders of the parsed data were named 4_states, while the loader reads
4_States, so that they were never found where the case of names matters.
---
 ...ty_profiles_n_residents_1__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_1__weekday_6,7.npz | Bin
 ...ty_profiles_n_residents_2__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_2__weekday_6,7.npz | Bin
 ...ty_profiles_n_residents_3__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_3__weekday_6,7.npz | Bin
 ...ty_profiles_n_residents_4__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_4__weekday_6,7.npz | Bin
 ...ty_profiles_n_residents_5__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_5__weekday_6,7.npz | Bin
 ...ty_profiles_n_residents_6__weekday_1,2,3,4,5.npz | Bin
 ...activity_profiles_n_residents_6__weekday_6,7.npz | Bin
 .../labels__n_residents_1__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_1__weekday_6,7.npy          | Bin
 .../labels__n_residents_2__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_2__weekday_6,7.npy          | Bin
 .../labels__n_residents_3__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_3__weekday_6,7.npy          | Bin
 .../labels__n_residents_4__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_4__weekday_6,7.npy          | Bin
 .../labels__n_residents_5__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_5__weekday_6,7.npy          | Bin
 .../labels__n_residents_6__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_6__weekday_6,7.npy          | Bin
 .../start_pdf__n_residents_1__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_1__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_2__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_2__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_3__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_3__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_4__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_4__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_5__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_5__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_6__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_6__weekday_6,7.npy       | Bin
 .../tpm__n_residents_1__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_1__weekday_6,7.npy             | Bin
 .../tpm__n_residents_2__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_2__weekday_6,7.npy             | Bin
 .../tpm__n_residents_3__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_3__weekday_6,7.npy             | Bin
 .../tpm__n_residents_4__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_4__weekday_6,7.npy             | Bin
 .../tpm__n_residents_5__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_5__weekday_6,7.npy             | Bin
 .../tpm__n_residents_6__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_6__weekday_6,7.npy             | Bin
 ...activity_profiles_n_residents_1__weekday_6,7.npz | Bin
 .../labels__n_residents_1__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_1__weekday_6,7.npy          | Bin
 .../labels__n_residents_2__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_2__weekday_6,7.npy          | Bin
 .../labels__n_residents_3__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_3__weekday_6,7.npy          | Bin
 .../labels__n_residents_4__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_4__weekday_6,7.npy          | Bin
 .../labels__n_residents_5__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_5__weekday_6,7.npy          | Bin
 .../labels__n_residents_6__weekday_1,2,3,4,5.npy    | Bin
 .../labels__n_residents_6__weekday_6,7.npy          | Bin
 .../start_pdf__n_residents_1__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_1__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_2__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_2__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_3__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_3__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_4__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_4__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_5__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_5__weekday_6,7.npy       | Bin
 .../start_pdf__n_residents_6__weekday_1,2,3,4,5.npy | Bin
 .../start_pdf__n_residents_6__weekday_6,7.npy       | Bin
 .../tpm__n_residents_1__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_1__weekday_6,7.npy             | Bin
 .../tpm__n_residents_2__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_2__weekday_6,7.npy             | Bin
 .../tpm__n_residents_3__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_3__weekday_6,7.npy             | Bin
 .../tpm__n_residents_4__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_4__weekday_6,7.npy             | Bin
 .../tpm__n_residents_5__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_5__weekday_6,7.npy             | Bin
 .../tpm__n_residents_6__weekday_1,2,3,4,5.npy       | Bin
 .../tpm__n_residents_6__weekday_6,7.npy             | Bin
 85 files changed, 0 insertions(+), 0 deletions(-)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_1__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_1__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_2__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_2__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_3__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_3__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_4__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_4__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_5__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_5__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_6__weekday_1,2,3,4,5.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/activity_profiles_n_residents_6__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/labels__n_residents_6__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/start_pdf__n_residents_6__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.2/{4_states => 4_States}/tpm__n_residents_6__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/activity_profiles_n_residents_1__weekday_6,7.npz (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/labels__n_residents_6__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/start_pdf__n_residents_6__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_1__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_1__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_2__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_2__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_3__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_3__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_4__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_4__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_5__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_5__weekday_6,7.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_6__weekday_1,2,3,4,5.npy (100%)
 rename demod/datasets/CREST/parsed_data/v_2.3.3/{4_states => 4_States}/tpm__n_residents_6__weekday_6,7.npy (100%)

diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_1__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_1__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_1__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_1__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_1__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_1__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_1__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_1__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_2__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_2__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_2__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_2__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_2__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_2__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_2__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_2__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_3__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_3__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_3__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_3__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_3__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_3__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_3__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_3__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_4__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_4__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_4__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_4__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_4__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_4__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_4__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_4__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_5__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_5__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_5__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_5__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_5__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_5__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_5__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_5__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_6__weekday_1,2,3,4,5.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_6__weekday_1,2,3,4,5.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_6__weekday_1,2,3,4,5.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_6__weekday_1,2,3,4,5.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_6__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_6__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/activity_profiles_n_residents_6__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/activity_profiles_n_residents_6__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/labels__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/labels__n_residents_6__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/start_pdf__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/start_pdf__n_residents_6__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.2/4_states/tpm__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.2/4_States/tpm__n_residents_6__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/activity_profiles_n_residents_1__weekday_6,7.npz b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/activity_profiles_n_residents_1__weekday_6,7.npz
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/activity_profiles_n_residents_1__weekday_6,7.npz
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/activity_profiles_n_residents_1__weekday_6,7.npz
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/labels__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/labels__n_residents_6__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/start_pdf__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/start_pdf__n_residents_6__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_1__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_1__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_1__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_1__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_1__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_1__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_1__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_1__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_2__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_2__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_2__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_2__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_2__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_2__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_2__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_2__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_3__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_3__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_3__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_3__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_3__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_3__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_3__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_3__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_4__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_4__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_4__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_4__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_4__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_4__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_4__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_4__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_5__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_5__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_5__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_5__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_5__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_5__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_5__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_5__weekday_6,7.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_6__weekday_1,2,3,4,5.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_6__weekday_1,2,3,4,5.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_6__weekday_1,2,3,4,5.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_6__weekday_1,2,3,4,5.npy
diff --git a/demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_6__weekday_6,7.npy b/demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_6__weekday_6,7.npy
similarity index 100%
rename from demod/datasets/CREST/parsed_data/v_2.3.3/4_states/tpm__n_residents_6__weekday_6,7.npy
rename to demod/datasets/CREST/parsed_data/v_2.3.3/4_States/tpm__n_residents_6__weekday_6,7.npy
-- 
2.43.0


From 161a692995bc9409f70f192aa9f7fc83d6c74a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:33 +0000
Subject: [PATCH 66/79] fix: occupancy of survey diaries after trips and of
 unreported final places

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index c57ed18..93f0973 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -50,7 +50,7 @@ travelling          = np.array(df_akt['tc5'])
 initial_location    = np.array(df_akt['tc7'])
 final_location      = np.array(df_akt['tc8'])
 # 'trifft nicht zu' = -2 and means that the start location of the next day should be used
-final_location[final_location==-2] = np.roll(initial_location, 1)[final_location==-2]
+final_location[final_location==-2] = np.roll(initial_location, -1)[final_location==-2]
 
 # get a link between df_akt and df_pers
 df_akt_index_person = np.array([np.where(df_pers['id_persx'] == i)[0][0] for i in df_akt['id_persx']])
@@ -1587,10 +1587,10 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == 1)] = True
         current_occupancy[mask_after_last_travel & (final_occupancy == 2)] = False
         # keine angabe gets the last value probability
-        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
+        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)] >= 0
 
         #
-        mask_travelling = np.array(mask_was_travelling)
+        mask_was_travelling = np.array(mask_travelling)
         occupancies.append(np.array(current_occupancy))
 
     return np.asarray(occupancies).T
-- 
2.43.0


From f930aec581e46383a0a3f0c3864657b19da71d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:06 +0000
Subject: [PATCH 67/79] fix: survey parser uses the secondary activities where
 it says so

---
 demod/datasets/GermanTOU/loader.py | 17 +++++++++++------
 demod/datasets/GermanTOU/parser.py | 12 ++++++++----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 50a3f34..63ca2f2 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -263,7 +263,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         return_hh will also return the household id
         """
-        from .parser import primary_states, occ, get_mask_subgroup
+        from .parser import (
+            primary_states, secondary_states, occ, get_mask_subgroup
+        )
 
         # Sets some information on activity for the loading
         self._load_rawdata_info()
@@ -277,11 +279,11 @@ class GTOU(LoaderTOU, PopulationLoader):
         mask_subgroup = get_mask_subgroup(**subgroup)
         raw_states = primary_states[mask_subgroup]
 
+        activity_dict = self.corresponding_dict.copy()
 
         if self.add_away_state:
             # Away is the opposite of occupancy
             raw_states[~occ[mask_subgroup]] = 0
-            activity_dict = self.corresponding_dict.copy()
             activity_dict[0] = 'away'
 
 
@@ -291,9 +293,10 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         if self.use_secondary_states:
             # Gets the secondary states
-            raw_sec_states = primary_states[mask_subgroup]
+            raw_sec_states = secondary_states[mask_subgroup]
             sec_states, sec_states_label = convert_states(
-                raw_sec_states, activity_dict
+                # 0 is 'no activity' in the secondary states, not 'away'
+                raw_sec_states, self.corresponding_dict
             )
             sec_states_label[sec_states_label=='-'] = 'other'
             # Find where to replace
@@ -302,8 +305,10 @@ class GTOU(LoaderTOU, PopulationLoader):
                 & (sec_states_label[sec_states] != 'other')
             )
             # Recontruct a states array with the secondary states
-            raw_act_array = states_label[states]
-            raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+            raw_act_array = np.where(
+                mask_can_replace,
+                sec_states_label[sec_states], states_label[states]
+            )
             # Finds back in states format
             states, states_label = convert_states(raw_act_array)
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 93f0973..78bd258 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1752,6 +1752,8 @@ def get_tpms_activity(
     mask_subgroup = get_mask_subgroup( **subgroup)
 
     raw_states = primary_states[mask_subgroup]
+    # 'away' replaces only primary states, 0 is 'no activity' in the secondary
+    sec_activity_dict = activity_dict
 
     if add_away_state:
         raw_states[~occ[mask_subgroup]] = 0
@@ -1765,9 +1767,9 @@ def get_tpms_activity(
 
     if use_sec_states:
         # Gets the secondary states
-        raw_sec_states = primary_states[mask_subgroup]
+        raw_sec_states = secondary_states[mask_subgroup]
         sec_states, sec_states_label = convert_states(
-            raw_sec_states, activity_dict
+            raw_sec_states, sec_activity_dict
         )
         sec_states_label[sec_states_label=='-'] = 'other'
         # Find where to replace
@@ -1776,8 +1778,10 @@ def get_tpms_activity(
             & (sec_states_label[sec_states] != 'other')
         )
         # Recontruct a states array with the secondary states
-        raw_act_array = states_label[states]
-        raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+        raw_act_array = np.where(
+            mask_can_replace,
+            sec_states_label[sec_states], states_label[states]
+        )
         # Finds back in states format
         states, states_label = convert_states(raw_act_array)
 
-- 
2.43.0


From 4fb86f00a6bf2d0fbd36751b59473f06e445faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 68/79] fix: daily activity starts are probabilities over the
 diaries

---
 demod/datasets/GermanTOU/loader.py | 43 ++++++++++++------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 63ca2f2..c97f0bb 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -353,39 +353,30 @@ class GTOU(LoaderTOU, PopulationLoader):
     ) -> Dict[str, np.ndarray]:
         """Parse the number of times an activity starts in the diaries."""
 
-        states, hh_id, day_id = self.get_states(
-            subgroup, return_hh=True, return_day=True
-        )
+        states = self.get_states(subgroup)
         # Converts the states to transitions
         transitions_dict = states_to_transitions(states)
-        # Find in which household and which recorded day the diary was
-        transitions_dict['hh_day'] = (
-            # Samll trick to get unique hh and day transitions (day_id = 1, 2 or 3)
-            hh_id[transitions_dict['persons']] * 4
-            + day_id[transitions_dict['persons']]
-        )
+
+        def starts_pdf(mask_starts):
+            # Counts how many times each diary starts the activity
+            n_starts = np.bincount(
+                transitions_dict['persons'][mask_starts],
+                minlength=len(states)
+            )
+            # Counts the diaries starting i times, and converts to probs
+            return np.bincount(n_starts).astype(float) / len(states)
 
         daily_starts = {
-            act: np.bincount(  # Counts the number of persons starting i times
-                    np.bincount(  # Counts how many time each household start act
-                        transitions_dict['hh_day'][
-                            transitions_dict['new_states'] == act
-                        ]
-                    )
-                ).astype(float) / len(states)  # Convert to probs
+            act: starts_pdf(transitions_dict['new_states'] == act)
             for act in np.unique(transitions_dict['new_states'])
         }
         # Special case: active occupancy
-        daily_starts['active_occupancy'] = np.bincount(
-            # Counts the number of persons starting i times
-            np.bincount(  # Counts how many time each household start act
-                transitions_dict['hh_day'][
-                    # Active occupancy start when someone wakes up or comes back
-                    # BUT Does not take into account sleeping away from home ...
-                    (transitions_dict['new_states'] == 'sleeping')
-                    | (transitions_dict['new_states'] == 'away')
-                ]
-        )).astype(float) / len(states)  # Convert to probs
+        daily_starts['active_occupancy'] = starts_pdf(
+            # Active occupancy start when someone wakes up or comes back
+            # BUT Does not take into account sleeping away from home ...
+            (transitions_dict['new_states'] == 'sleeping')
+            | (transitions_dict['new_states'] == 'away')
+        )
 
         return daily_starts
 
-- 
2.43.0


From 034bc77925e843a2f8f2694484ff70c875a8312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 69/79] fix: subgroups given by lists respect the selection of
 records

---
 demod/datasets/GermanTOU/parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 78bd258..1733165 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -116,6 +116,13 @@ def get_mask_subgroup(
 
     _mask = np.ones(len(df_akt), dtype=bool)
 
+    # The same selection of records applies to the nested subgroups
+    records_kwargs = dict(
+        only_fully_recorded_household=only_fully_recorded_household,
+        remove_missing_days=remove_missing_days,
+        only_household_identical_days=only_household_identical_days,
+    )
+
     if only_fully_recorded_household:
         # check if the diary is in the list of household that have the number of records=number of people living their
         _mask &= np.isin(df_akt['id_hhx'],df_hh['id_hhx'][df_hh['ha1x']-df_hh_max_recorded_persons == 0])
@@ -136,14 +143,14 @@ def get_mask_subgroup(
 
     if weekday:
         if isinstance(weekday, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i) for i in weekday])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i, **records_kwargs) for i in weekday])
         else:
             assert weekday <= 7 and weekday > 0, 'weekday value must be 1,2,3,4,5,6 or 7'
             _mask &= np.array(df_akt['wtagfei']) == weekday
 
     if n_residents:
         if isinstance(n_residents, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i) for i in n_residents])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i, **records_kwargs) for i in n_residents])
         else:
             assert n_residents <= 6 and n_residents > 0, 'n_residents value must be 1,2,3,4,5 or 6'
             _mask &= np.array(df_hh['ha1x'][df_akt['id_hhx']-1]) == n_residents
@@ -162,7 +169,8 @@ def get_mask_subgroup(
         elif hh_work_type == 'other':
             _mask &= np.array(df_hh['anz_erw'][df_akt['id_hhx']-1]) == 7
         elif hh_work_type == '1_retired':
-            _mask &= get_mask_subgroup(n_residents=1, life_situation=8)
+            _mask &= get_mask_subgroup(
+                n_residents=1, life_situation=8, **records_kwargs)
         elif hh_work_type == '2_retired':
             # get the households where there are 2 retired
             hh_2res = df_hh['id_hhx'][df_hh['ha1x'] == 2]
@@ -188,7 +196,7 @@ def get_mask_subgroup(
 
     if life_situation:
         if isinstance(life_situation, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i) for i in life_situation])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i, **records_kwargs) for i in life_situation])
         elif isinstance(life_situation, dict):
             # individual life situation for all households memebers
             # get households with the corresponding life situations
-- 
2.43.0


From 8b228232d27e6e2488c42490729233e2a140055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 70/79] fix: survey occupancy is estimated from the ratings of
 the activities

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 1733165..6d58d3a 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1554,9 +1554,9 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         There is no guarantee on the validity of this, but results seems ok
     """
     # convert the states to their home indice rating
-    main_rating, _         = convert_states(primary_states, dic_home)
-    secondary_rating, _    = convert_states(secondary_states, dic_home)
-    home_ratings = main_rating + secondary_rating
+    main_states, main_rating             = convert_states(primary_states, dic_home)
+    secondary_states_, secondary_rating  = convert_states(secondary_states, dic_home)
+    home_ratings = main_rating[main_states] + secondary_rating[secondary_states_]
 
     #initialize the occupancy
     current_occupancy= np.zeros_like(initial_occupancy, dtype=bool)
-- 
2.43.0


From 612339b00c61760b5d2193bceb20e515e92c5890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:23 +0000
Subject: [PATCH 71/79] fix: permanently used appliances with a load profile of
 one step, and starting at its beginning

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index a9508cf..b2df942 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -561,7 +561,7 @@ class AppliancesSimulator(TimeAwareSimulator):
         # Sets the initial duration randomly sampled in the profiles
         self.n_steps_left[mask_real_loads_on] = np.random.randint(
             # Starts at 1 as they are on
-            1, self.load_duration[mask_real_loads_on]
+            1, self.load_duration[mask_real_loads_on] + 1
         )
 
     @ cached_getter
-- 
2.43.0


From 054faedad0fe1e823c93121ea5f1a7e6f2b09e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:45 +0000
Subject: [PATCH 72/79] fix: clearing the parsed data of an activity type that
 has none

---
 demod/datasets/GermanTOU/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index c97f0bb..9ceb146 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -86,8 +86,10 @@ class GTOU(LoaderTOU, PopulationLoader):
 
     def _clear_parsed_data(self):
         # clear the parsed directory
-        shutil.rmtree(self.parsed_path + os.sep + self.activity_type)
-        os.mkdir(self.parsed_path + os.sep + self.activity_type)
+        parsed_path_activity = self.parsed_path + os.sep + self.activity_type
+        if os.path.isdir(parsed_path_activity):
+            shutil.rmtree(parsed_path_activity)
+        os.mkdir(parsed_path_activity)
         # Also cleans the zip file
         parsed_zip_filepath = (
             self.raw_path + os.sep + self.activity_type + '.zip'
-- 
2.43.0


From c9c95cf6760f3b3972a761d06b9df067683eed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:01 +0000
Subject: [PATCH 73/79] fix: activities that only some residents, or some days,
 have

---
 demod/simulators/activity_simulators.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 7dc0725..fd44acf 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -265,6 +265,7 @@ class MarkovChain1rstOrder(Simulator):
             inverse
         ].reshape(-1)
         self.state_labels = new_labels
+        self.n_states = len(new_labels)
 
     def step(self) -> None:
         """Perfom a step Markov chain step.
@@ -617,6 +618,7 @@ class SubgroupsIndividualsActivitySimulator(
         MultiSimulator.__init__(self, simulators_list)
         self.n_households = sum(n_households_list)
         self.activity_labels = simulators_list[0].state_labels
+        self._update_activity_labels()
         # This could be read from the dataset, but as far as I know,
         # all TOU are 10 min based ?
         step_size = datetime.timedelta(minutes=10)
@@ -855,9 +857,17 @@ class SubgroupsIndividualsActivitySimulator(
         if isinstance(activity, list):
             return [self.get_n_doing_activity(a) for a in activity]
         # merges the results of all the subsimulators
-        persons_states = np.concatenate(
-            [s.get_n_doing_activity(activity) for s in self.simulators]
-        )
+        if activity not in list(self.activity_labels):
+            raise ValueError("'{}' is not in the activity labels: {}.".format(
+                activity, self.activity_labels
+            ))
+        persons_states = np.concatenate([
+            s.get_n_doing_activity(activity)
+            # Some activities don't exist for some of the subgroups
+            if activity in list(s.state_labels)
+            else np.zeros(s.n_households, dtype=bool)
+            for s in self.simulators
+        ])
         # Assume Persons getter can only return 1s and 0s
         mask_out = np.array(persons_states, dtype=bool)
         # Counts how many persons in the households are 1s
@@ -885,6 +895,15 @@ class SubgroupsIndividualsActivitySimulator(
                 self._update_tpms(sim, subgroup) for sim, subgroup
                 in zip(self.simulators, self.subgroups_persons)
             ]
+            self._update_activity_labels()
+
+    def _update_activity_labels(self) -> None:
+        """Add the activities that exist only for some of the subgroups."""
+        labels = list(self.activity_labels)
+        for sim in self.simulators:
+            labels += [lab for lab in sim.state_labels if lab not in labels]
+        if len(labels) > len(self.activity_labels):
+            self.activity_labels = np.array(labels)
 
     @ cached_getter
     def get_activity_states(self) -> Dict[str, np.ndarray]:
-- 
2.43.0


From 22ca239388b890b8a8eb2bb6a5dfc43ebf4f7cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:01 +0000
Subject: [PATCH 74/79] fix: climate crashed on polar nights, gave nan on polar
 days, and 0 degrees at night where the sun sets after midnight

---
 demod/simulators/weather_simulators.py | 75 +++++++++++++-------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index fb014d9..12c8568 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -476,6 +476,10 @@ class CrestClimateSimulator(ClimateSimulator):
         )
         cumulative_radiation_3[~mask_daylight] = np.nan
 
+        if not np.any(mask_daylight):
+            # Polar night: nothing changes the temperature of the day
+            return np.full(len(irradiances), self.Td_arma)
+
         # Find the maximum of the ratio and store the minute when this occurs
         kx_max = np.nanmax(cumulative_radiation_3)
         kx_max_i = np.nanargmax(cumulative_radiation_3)
@@ -525,43 +529,42 @@ class CrestClimateSimulator(ClimateSimulator):
             cumulative_radiation_4[(kx_max_i + 1):],
         )
 
-        # Determine number of minutes outside of daylight
-        di = np.sum(irradiances == 0)
-        # Determine the temperature difference between sunset and the
-        # minimum temperature for the day
-        indices = np.where(irradiances > 0)[0]
-        sunset_i = indices[-1]
-        sunrise_i = indices[0]
-        dT = (
-            cumulative_radiation_4[sunset_i]
-            - cumulative_radiation_4[sunrise_i]
-        )  # = Td_sunset - Td_min
-
-        # Determine how much cooling is therefore required
-        CoolingRate = dT / di
+        # Calculate the temperatures of each night, from a sunset to the next
+        # sunrise. The night usually goes over midnight, but it does not
+        # where the sun sets after midnight, and polar days have none.
         CloudCoolingRate = 0.025
-
-        # Calculate the overnight mean clearness index
-        vOvernightMeanClearness = np.mean(clearness_indexes[irradiances == 0])
-
-        # Calculate the overnight temperatures
-        # after day
-        cumulative_radiation_4[sunset_i:] = cumulative_radiation_4[
-            sunset_i - 1
-        ]
-        cumulative_radiation_4[sunset_i:] -= np.cumsum(
-            CoolingRate
-            - CloudCoolingRate
-            * (vOvernightMeanClearness - clearness_indexes[sunset_i:])
-        )
-
-        # before day
-        cumulative_radiation_4[:sunrise_i] = cumulative_radiation_4[-1]
-        cumulative_radiation_4[:sunrise_i] -= np.cumsum(
-            CoolingRate
-            - CloudCoolingRate
-            * (vOvernightMeanClearness - clearness_indexes[:sunrise_i])
-        )
+        is_dark = irradiances == 0
+        sunsets = np.where(~is_dark & np.roll(is_dark, -1))[0]
+        for sunset_i in sunsets:
+            # Determine number of minutes outside of daylight
+            di = np.argmin(np.roll(is_dark, -(sunset_i + 1)))
+            sunrise_i = (sunset_i + 1 + di) % len(irradiances)
+            night = (sunset_i + np.arange(di + 1)) % len(irradiances)
+
+            # Determine the temperature difference between sunset and the
+            # minimum temperature for the day
+            dT = (
+                cumulative_radiation_4[sunset_i]
+                - cumulative_radiation_4[sunrise_i]
+            )  # = Td_sunset - Td_min
+
+            # Determine how much cooling is therefore required
+            CoolingRate = dT / di
+
+            # Calculate the overnight mean clearness index
+            vOvernightMeanClearness = np.mean(clearness_indexes[night[1:]])
+
+            # Calculate the overnight temperatures, from the last ones that
+            # the sun has set
+            last_i = sunset_i if is_dark[sunset_i - 1] else sunset_i - 1
+            cumulative_radiation_4[night] = (
+                cumulative_radiation_4[last_i]
+                - np.cumsum(
+                    CoolingRate
+                    - CloudCoolingRate
+                    * (vOvernightMeanClearness - clearness_indexes[night])
+                )
+            )
 
         # output temperature data
         return cumulative_radiation_4
-- 
2.43.0


From f0fff5af2f283f109633dda80af4480eaf8160ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 75/79] fix: SimLogger.plot_column without current_time or with
 a single attribute

---
 demod/simulators/base_simulators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 40d4536..aef0779 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -278,12 +278,15 @@ class SimLogger():
             n_plots -= 1
             x_ticks = self.get('current_time')
         else:
-            x_ticks = np.arange(0, self.length)
+            # Same length as the series returned by self.get()
+            x_ticks = np.arange(0, self.length - 1)
 
         fig, axes = plt.subplots(
             nrows=n_plots,
-            sharex=True
+            sharex=True,
+            squeeze=False
         )
+        axes = axes[:, 0]
         plt.subplots_adjust(hspace=0)
 
 
-- 
2.43.0


From 15db1f1610f0a009f8c3c6624c846c09350923e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:33 +0000
Subject: [PATCH 76/79] fix: SimLogger.plot of dictionaries that are not
 aggregated

---
 demod/simulators/base_simulators.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index aef0779..9a20dd5 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -379,14 +379,21 @@ class SimLogger():
             if attr == 'current_time': continue
             serie = self.get(attr)
 
-            if not aggr and (len(serie.shape) > 1):
-                if aggregate:
-                    # sum over the households
-                    self._plot_single(np.sum(serie, axis=1), attr)
+            # Dictionary outputs contain one serie for each key
+            series = (
+                {attr + '_' + key: ser for key, ser in serie.items()}
+                if isinstance(serie, dict) else {attr: serie}
+            )
+
+            for label, serie in series.items():
+                if not aggr and (len(serie.shape) > 1):
+                    if aggregate:
+                        # sum over the households
+                        self._plot_single(np.sum(serie, axis=1), label)
+                    else:
+                        self._plot_all_households(serie, label)
                 else:
-                    self._plot_all_households(serie, attr)
-            else:
-                self._plot_single(serie, attr)
+                    self._plot_single(serie, label)
 
             plt.legend()
             plt.show()
-- 
2.43.0


From 27bb6707a2f1a6092b71d2d1426d76f407f6eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:49 +0000
Subject: [PATCH 77/79] fix: legend of plot_household_activities counts the
 main activities

---
 demod/utils/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index 9176771..c6d37e1 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -112,7 +112,7 @@ def plot_household_activities(
     for j, key in enumerate(labels_main):
         scatter(dict_states[key], i+j)
         labels.append(key)
-        max_number = max(max_number, max(array))
+        max_number = max(max_number, max(dict_states[key]))
 
     ax.set_yticks(np.arange(0, len(labels)))
     ax.set_yticklabels(labels)
-- 
2.43.0


From 712e94595ce363b03bc1814908edc29fb80e47d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:49 +0000
Subject: [PATCH 78/79] fix: plotters pass on the step and stackplot arguments
 they accept

---
 demod/utils/plotters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/utils/plotters.py b/demod/utils/plotters.py
index c6d37e1..e79b5cf 100644
--- a/demod/utils/plotters.py
+++ b/demod/utils/plotters.py
@@ -201,7 +201,8 @@ def plot_stack_states(
     ax.stackplot(
         np.arange(0, states.shape[1]),  # Create an x axis
         stacked_states,
-        labels=labels
+        labels=labels,
+        **kwargs
     )
     handles, lab = ax.get_legend_handles_labels()
     # Reverse the legend, so they follow the states order
@@ -240,7 +241,7 @@ def plot_stacked_activities(
         time_axis,
         dict_states.values(),
         labels=dict_states.keys(),
-        step='post',
+        step=step,
         **kwargs
     )
     # Reverse the legend, in the same way as they are stacked
-- 
2.43.0


From 86d9961cd301e10c8ec54774597b3940717cf20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:15 +0000
Subject: [PATCH 79/79] fix: new tracebase data replace the recordings and
 profiles of all step sizes

After an update, profiles already parsed at another step size, and
recordings that the new archive does not contain, were still returned.
---
 demod/datasets/tracebase/loader.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index c07d58d..756f34a 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -15,6 +15,7 @@ ICT for Sustainability (SustainIT), 2012.
 """
 from datetime import datetime, timedelta
 import os
+import shutil
 from typing import Any
 import zipfile
 
@@ -124,7 +125,18 @@ class Tracebase(ApplianceLoader):
             self._download_file(download_url, raw_zip_filepath)
             # Now the file is downloaded
             with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
+                # Recordings of previous raw data are outdated
+                shutil.rmtree(
+                    os.path.join(self.raw_path, 'tracebase-master'),
+                    ignore_errors=True
+                )
                 zip_obj.extractall(self.raw_path)
+            # As is what was parsed from them, for any step size
+            all_parsed_path = os.path.dirname(self.parsed_path)
+            for folder in os.listdir(all_parsed_path):
+                if folder.startswith(version + '_step_size_'):
+                    shutil.rmtree(os.path.join(all_parsed_path, folder))
+            os.mkdir(self.parsed_path)
 
     def _parse_real_profiles_dict(self, profiles_type: str):
         if profiles_type == 'switchedON':
-- 
2.43.0

