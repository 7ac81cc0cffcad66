From 6ca1b84500c2f7aedbaa6a4c802be17f49f5d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 01/33] fix: include temperature-maintenance power in the
 monthly cost breakdown

get_annual_utility_cost() and the detailed breakdown bill primary plus TM
power; get_monthly_cost_breakdown() billed the primary heater only, so its
months did not add up to the annual cost.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..44d34f0 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -601,6 +601,8 @@ class SimulationRun:
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
+            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
+                kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
-- 
2.43.0


From 60352bb9548bece04c980662d4264a2600f5e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 02/33] fix: include temperature-maintenance energy in
 get_monthly_energy_kwh

The total energy includes the TM heater, the monthly figures did not, so
the twelve months did not add up to the reported total.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 44d34f0..b98b250 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -697,9 +697,11 @@ class SimulationRun:
         step = 0
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
+            end = step + n_steps
             monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
-                for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
+                (p or 0.0) * hours_per_step
+                for series in (self.heater_power_in_kw, self.tm_heater_input_kw)
+                for p in series[step:end]
             )
             step += n_steps
         return monthly
-- 
2.43.0


From e808eb8f26d6f632b2493c20afc16b9f9e145f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 03/33] fix: keep the TM power series aligned with the
 simulation timesteps

Steps on which the TM heater is off report no power (None) and were dropped
from tm_heater_input_kw, so every later value slid to an earlier timestep and
was billed at the wrong hour.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index b98b250..6f49bf7 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -150,7 +150,9 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # Keep the TM power series aligned with the timesteps: a TM heater that is
+        # off this step has no power (None) but still occupies the step.
+        if tm_heater_input_kw is not None or tm_heater_output_kbtuh is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From 93061564230d68f81c4dc3b718428ef56379be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 04/33] fix: count temperature-maintenance power in the peak
 demand

get_peak_demand_kw() looked at the primary heater only although the TM
heater draws power on the same meter (and is billed that way).
---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 6f49bf7..15ea2c9 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -277,8 +277,10 @@ class SimulationRun:
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        if not self.heater_power_in_kw:
+            return 0.0
+        tm_kw = self.tm_heater_input_kw or [None] * len(self.heater_power_in_kw)
+        return max((p or 0.0) + (tm or 0.0) for p, tm in zip(self.heater_power_in_kw, tm_kw))
 
     def get_summary(self) -> dict:
         """
-- 
2.43.0


From 3ad1a3d878b1c7a35cd6f87e59c2b11d5a04a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 05/33] fix: monthly breakdowns no longer drop or misplace
 demand charges of csv tariffs

The month of a demand period was guessed from its label as label // 2 (or 3
with a discount period). A tariff read from csv may use any labels, and one
with a discount period that went through to_csv/from_csv has labels up to 35
but no discount flag: its demand charges landed in the wrong month or were
silently dropped. Take the month from the calendar instead; tariffs built
from rate parameters give the same result as before.
---
 .../objects/simulation/SimulationRun.py       | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 15ea2c9..5591007 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -602,27 +602,25 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
             if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                 kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
-            energy_by_month[_step_to_month(i, self.timestep_min)] += (
-                kw * hours_per_step * rate
-            )
+            month = _step_to_month(i, self.timestep_min)
+            energy_by_month[month] += kw * hours_per_step * rate
             period = uc.get_demand_period_at_step(i, self.timestep_min)
+            month_by_period.setdefault(period, month)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month it starts in.
+        # (Period labels read from a csv need not follow month * num_periods + offset.)
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            demand_by_month[month_by_period[period]] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -645,6 +643,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -654,6 +653,7 @@ class SimulationRun:
             rate   = uc.get_energy_charge_at_step(i, self.timestep_min)
             month  = _step_to_month(i, self.timestep_min)
             cost   = kw * hours_per_step * rate
+            month_by_period.setdefault(period, month)
             if uc.is_peak_map.get(period, False):
                 energy_peak[month] += cost
             else:
@@ -661,17 +661,15 @@ class SimulationRun:
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From ce2f70ec82d4278710bbceea9c06f7b498772370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 06/33] fix: start every simulation with the heaters off

The tanks were re-initialised but heaters kept the on/off state left by the
previous run (or by the sizing trial), so simulating twice gave two answers.
---
 src/ecoengine/interfaces/Simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..3fe5fc0 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -57,6 +57,11 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
     from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
     sim_run.show_tm_panel = isinstance(dhw_system, SwingSystem)
 
+    # Every run starts with all heaters off, whatever was simulated or sized before.
+    for wh in [*dhw_system.water_heaters, getattr(dhw_system, "tm_water_heater", None)]:
+        if wh is not None:
+            wh.turn_off()
+
     # Initialize storage tanks
     inlet_temp_f    = building.get_design_inlet_water_temp_f() or 50.0
     percent_useable = _initial_percent_useable(dhw_system)
-- 
2.43.0


From 1e9f8c2ac72033fcfff4b70af9ac90981ec954d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 07/33] fix: do not count every step of a tankless system as an
 outage

An instantaneous heater has no storage and always reports zero usable volume,
so a simulation that met all demand came back as 100 % outage.
DHWSystem.check_for_outage() already treats systems without a tank this way.
---
 src/ecoengine/interfaces/Simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 3fe5fc0..0006809 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -103,7 +103,8 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             tm_heater_input_kw    = step.get("tm_heater_input_kw"),
         )
 
-        if step["usable_volume_supplyT_gal"] <= 0.0:
+        # A tankless system stores nothing by design: zero usable volume is no outage.
+        if dhw_system.storage_tank is not None and step["usable_volume_supplyT_gal"] <= 0.0:
             sim_run.record_outage(timestep_min)
 
         # Check outlet-deficit stop condition. For systems where the TM/swing
-- 
2.43.0


From 2b9f322defba83c2bb8d3748045b313ef6e0f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 08/33] fix: instantaneous heater capacity was 60 times too
 large

The load shape holds fractions of the daily use per hour, so daily use times
its maximum already is gal/hr; the extra * 60 made the sized capacity 60 times
the highest output the simulation ever asks for.
---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 252eb518229937b2ebea1f5038da4af2cd9a45cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 09/33] fix: multi-pass simulation reported the tank outlet
 temperature as outdoor air

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From c235cbd13863d175521815adaa14aa735574a5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 10/33] fix: remove a debug print from every parallel-loop
 simulation step

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From 8ce1d67ff460801b6e0db85cef9f2f20cde7758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 11/33] fix: restore the building's daily use exactly after
 single-pass RTP load-shift sizing

Adding the recirculation volume and subtracting it again left the building's
daily use off by rounding, so sizing changed its input and repeated sizing
drifted.
---
 .../dhwsystems/rtp_systems/SinglePassRTPSystem.py      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..0f0c357 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
-        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
+        building.daily_dhw_use_supplyT_gal = original_daily_gal + recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
-        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
+        building.daily_dhw_use_supplyT_gal = original_daily_gal + recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 0115f4373eed43cea11c789bd28aeb525e8b7e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 12/33] fix: restore the annual load shape when sizing fails

size() switched the building to its daily shape and back only on success; a
sizing that raised left the caller's building with the wrong load shape. The
sizing curves already restore it in finally.
---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 232964109346058e8f43df174980a9496863ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 13/33] fix: swing load-shift sizing curve used a stale mix
 fraction

A swing system's capacity depends on the effective mix fraction that the
running-volume calculation leaves behind. The load-shift curve computed the
normal capacity first, so it depended on what was computed earlier: calling
the curve twice gave two curves, and neither need match size().
---
 src/ecoengine/objects/dhwsystems/DHWSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 3736748..1cf5416 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -597,6 +597,9 @@ class DHWSystem:
             # Pre-compute quantities that don't vary with fract_total_vol.
             cap_normal     = self._calc_required_capacity(building)
             run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
+            # Swing systems derive the capacity from the running-volume calculation
+            # just made; without this it would come from whatever ran before.
+            cap_normal     = self._calc_required_capacity(building)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
-- 
2.43.0


From 7fb99bc447b319a09e7a6e43287b85e8986a32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 14/33] fix: restore building and system when the ER trade-off
 curve fails

A fraction that cannot be sized (swing tank smaller than the per-minute draw)
raised out of get_er_sized_points() with the building still scaled and the TM
capacity still overwritten.
---
 .../recirc_systems/SwingERTrdOffSystem.py     | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..3def966 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -576,32 +576,34 @@ class SwingERTrdOffSystem(SwingSystem):
         startind = 0
 
         i = 120.0
-        while i > 0:
-            if i == 100.0:
-                startind   = len(fract_covered)
-                total_tm_i = original_total_tm
-                er_needed  = True
-            else:
-                building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
-                self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
-                self._er_capacity_kbtuh            = None
-                self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-
-            er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
-            fract_covered.append(i)
-            i -= 10.0
-
-            if not er_needed:
-                break  # no ER at this fraction; lower fractions won't need it either
-
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
+        try:
+            while i > 0:
+                if i == 100.0:
+                    startind   = len(fract_covered)
+                    total_tm_i = original_total_tm
+                    er_needed  = True
+                else:
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
+                    self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
+                    self._er_capacity_kbtuh            = None
+                    self.er_safety_factor              = additional_er_safety
+                    self._size_er_element(building)
+                    self.er_safety_factor              = original_er_safety
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+
+                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
+                fract_covered.append(i)
+                i -= 10.0
+
+                if not er_needed:
+                    break  # no ER at this fraction; lower fractions won't need it either
+        finally:
+            # Restore mutated state
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
+            self._minimum_tm_capacity_kbtuh    = original_total_tm
+            self._er_capacity_kbtuh            = original_er_kbtuh
+            self.er_safety_factor              = original_er_safety
 
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
-- 
2.43.0


From 1a9bba3e79146b7baeaf2de7869efc8d1fc8cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 15/33] fix: accept an integer zip code as documented

The docstring and the README example pass 94105 as an int; it was rejected.
---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..536756b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -702,13 +702,15 @@ class EcosizerEngine:
             return ClimateZone.from_design_conditions(**czv)
         if isinstance(czv, str) and czv.isdigit() and len(czv) == 5:
             return ClimateZone.from_zip_code(czv)
+        if isinstance(czv, int) and 10000 <= czv <= 99999:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
         if isinstance(czv, str):
             return ClimateZone.from_weather_station(czv)
         raise ValueError(
             f"Cannot determine ClimateZone from {czv!r}. "
-            "Pass a 5-digit CA zip code string, a zone ID int (1–96), "
+            "Pass a 5-digit CA zip code, a zone ID int (1–96), "
             "a weather station name string, or a dict with 'design_oat_f' "
             "and/or 'design_inlet_water_temp_f'."
         )
-- 
2.43.0


From 566b224a283f1466be8c85b2e5c1b55624dc483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 16/33] fix: default gpdpp made every multi-family engine fail

gpdpp=None is documented to use the building-type default, but None was
passed on and rejected as 'gpdpp must be a number'.
---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 536756b..2621a7d 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -686,13 +686,15 @@ class EcosizerEngine:
         from ecoengine.objects.building.ClimateZone import ClimateZone
 
         zone = self._build_climate_zone(ClimateZone)
+        # gpdpp=None means the building-type default: leave it to Building.
+        gpdpp_kwargs = {} if self.gpdpp is None else {"gpdpp": self.gpdpp}
         return Building.from_building_type(
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            **gpdpp_kwargs,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From 5a0d9484f7ebb11900518a1ea039aaf4df57b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 17/33] fix: attach the utility cost tracker to the building as
 documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 2621a7d..a662da7 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -694,6 +694,7 @@ class EcosizerEngine:
             climate_zone            = zone,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
             **gpdpp_kwargs,
         )
 
-- 
2.43.0


From 073a58ae568e3797bee85cc21ac607e18fddf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 18/33] fix: load-up hours without a load-up aquastat could not
 be simulated

The schedule named loadUp hours but no loadUp controls existed, so the
simulation raised at the first load-up hour. Default to the normal aquastat,
as the shed controls do.
---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index a662da7..c366b08 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -769,11 +769,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract   if self.load_up_aquastat_fract   is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From 8459a71a82d26e75585b18a569371c680d747d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 19/33] fix: to_csv lost hourly energy rates

A tariff read from csv bills by the hourly energy rate; writing it back kept
only the first rate of each demand period.
---
 src/ecoengine/objects/building/UtilityCostTracker.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..bf4b48e 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -640,8 +640,9 @@ class UtilityCostTracker:
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
         Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        demand period; subsequent rows leave those fields blank, except for hours
+        whose energy rate differs from the period's.  The monthly base charge
+        appears only in the first data row.
 
         Parameters
         ----------
@@ -679,6 +680,11 @@ class UtilityCostTracker:
                 else:
                     energy_rate = ""
                     demand_rate = ""
+                    if len(self.energy_charge_by_hour) == 8760:
+                        # Hourly tariff: write the rate wherever it is not the period's own.
+                        hourly_rate = self.energy_charge_by_hour[h]
+                        if hourly_rate != self.energy_charge_map.get(period):
+                            energy_rate = hourly_rate
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From 82b39d87199729827fcc2708f802e1efb87b3837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 20/33] fix: reject climate zone ids below 1

Zone 0 and negative ids silently loaded another zone's weather because the
id was used as a (negative) column index.
---
 src/ecoengine/objects/building/ClimateZone.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..8ed37cb 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -144,6 +144,8 @@ class ClimateZone:
         -------
         ClimateZone
         """
+        if not 1 <= zone_id <= 96:
+            raise ValueError(f"zone_id must be between 1 and 96, got {zone_id!r}.")
         oat_f_by_hour               = cls._load_oat_data(zone_id)
         inlet_water_temp_f_by_month = cls._load_inlet_water_data(zone_id)
         return cls(zone_id, oat_f_by_hour, inlet_water_temp_f_by_month)
-- 
2.43.0


From 4f6ae50943284751479b6e5bac4fd48cda5ee6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:17 +0000
Subject: [PATCH 21/33] fix: mixing valve drew more than the load and crashed
 when storage fell to supply temperature

---
 src/ecoengine/objects/dhwsystems/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..f8d47b4 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -3,6 +3,15 @@ from ecoengine.constants.constants import _RHO_CP
 
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
+    if storage_temp_f <= supply_temp_f:
+        # Storage cannot be tempered down to supply temperature: the valve is fully open
+        # and the whole load plus the loop flow comes from (and is replaced in) the tank.
+        storage_draw_gal = load_supplyT_gal + flow_returnT_gal
+        if storage_draw_gal <= 0.0:
+            return {"storage_draw_gal" : 0.0, "inlet_temp_f" : cold_temp_f}
+        inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (flow_returnT_gal * return_temp_f)) / storage_draw_gal
+        return {"storage_draw_gal" : storage_draw_gal, "inlet_temp_f" : inlet_temp_f}
+
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
     critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
 
-- 
2.43.0


From ba1ca4c1015444485ea93bae9ac5a91e54b3853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:00 +0000
Subject: [PATCH 22/33] fix: mixing valve with neither load nor loop flow
 divided by zero

---
 src/ecoengine/objects/dhwsystems/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index f8d47b4..9cb519d 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -21,6 +21,9 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
         inlet_temp_f = cold_temp_f
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
+        if storage_draw_gal <= 0.0:
+            # nothing is used and the loop loses nothing
+            return {"storage_draw_gal" : 0.0, "inlet_temp_f" : cold_temp_f}
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
         inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
     return {
-- 
2.43.0


From bdb9b08ca3ce0aef8ca5f8e1df07caedd14c0715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:50 +0000
Subject: [PATCH 23/33] fix: validate an unnormalised custom load shape
 (length, sign) before using it

---
 src/ecoengine/objects/building/Building.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..a464e86 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -335,8 +335,8 @@ class Building:
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
                 else:
-                    _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
+            _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
 
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
-- 
2.43.0


From c0749346a11c6d2df7042ff6963c0ade9898a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:18 +0000
Subject: [PATCH 24/33] fix: a climate built from only one design condition
 failed on every query of the other

---
 src/ecoengine/objects/building/ClimateZone.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index 8ed37cb..75873c4 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -213,7 +213,7 @@ class ClimateZone:
         float
             Outdoor air temperature [°F].
         """
-        if self._constant_oat_f is not None:
+        if self._constant_oat_f is not None or self._oat_f_by_hour is None:
             return self._constant_oat_f
         actual_minute = timestep_interval * interval_min
         hour_of_year  = (actual_minute // 60) % len(self._oat_f_by_hour)
@@ -239,7 +239,7 @@ class ClimateZone:
         float
             Inlet water temperature [°F].
         """
-        if self._constant_inlet_water_temp_f is not None:
+        if self._constant_inlet_water_temp_f is not None or self._inlet_water_temp_f_by_month is None:
             return self._constant_inlet_water_temp_f
         actual_minute = timestep_interval * interval_min
         day_of_year   = (actual_minute // (60 * 24)) % 365
@@ -258,7 +258,7 @@ class ClimateZone:
         condition for heat-pump sizing).
         For design-condition zones: the constant value set at construction.
         """
-        if self._constant_oat_f is not None:
+        if self._constant_oat_f is not None or self._oat_f_by_hour is None:
             return self._constant_oat_f
         return min(self._oat_f_by_hour)
 
@@ -270,7 +270,7 @@ class ClimateZone:
         sizing condition).
         For design-condition zones: the constant value set at construction.
         """
-        if self._constant_inlet_water_temp_f is not None:
+        if self._constant_inlet_water_temp_f is not None or self._inlet_water_temp_f_by_month is None:
             return self._constant_inlet_water_temp_f
         return min(self._inlet_water_temp_f_by_month)
 
-- 
2.43.0


From 3e074d86c8502369a28e341b3f10a518a1e34283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 25/33] fix: an exhausted stratified tank kept 1e-14 gal of
 usable volume, so outages went unrecorded

---
 src/ecoengine/objects/components/storage/StratifiedTank.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index e79021a..b28137a 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -138,6 +138,10 @@ class StratifiedTank(StorageTank):
         shift_pct     = self._delta_gal / self.total_volume_gal * 100.0
         x_supply_pct  = (supply_temp_f - self._strat_inter) / self.strat_slope - shift_pct
         x_supply_pct  = max(0.0, min(100.0, x_supply_pct))
+        # A tank drawn down to its floor (see _delta_gal_floor) is empty, whichever
+        # way the floor's rounding error falls: callers detect an outage by zero.
+        if x_supply_pct > 100.0 - 1e-9:
+            return 0.0
         usable_fract  = (100.0 - x_supply_pct) / 100.0
         return usable_fract * self.total_volume_gal
 
-- 
2.43.0


From ffc8c8103c97403d08f157e7b9bb9cfcb28dace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:06 +0000
Subject: [PATCH 26/33] fix: slug tank average draw temperature follows the
 profile of the grown slug

---
 .../components/storage/SlugOverlayTank.py     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ecoengine/objects/components/storage/SlugOverlayTank.py b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
index b96496f..c7523db 100644
--- a/src/ecoengine/objects/components/storage/SlugOverlayTank.py
+++ b/src/ecoengine/objects/components/storage/SlugOverlayTank.py
@@ -267,14 +267,21 @@ class SlugOverlayTank(EnergyTank):
         """
         if not self._slug_active:
             return super().get_average_draw_temp_f(draw_gal)
-        draw_gal_pct = draw_gal/self.total_volume_gal * 100.0
-        if 100.0 - draw_gal_pct >= self._slug_top_pct:
-            # All draw above slug
+        draw_gal_pct = min(draw_gal / self.total_volume_gal * 100.0, 100.0)
+        if draw_gal_pct <= 0.0:
             return super().get_average_draw_temp_f(draw_gal)
-        non_slug_draw_pct = 100.0 - self._slug_top_pct
-        slug_draw_pct = draw_gal_pct - non_slug_draw_pct
-        return ((super().get_average_draw_temp_f(self.total_volume_gal * (non_slug_draw_pct/100.0)) * non_slug_draw_pct) + (self._slug_temp_f * slug_draw_pct)) / draw_gal_pct
-    
+        # Water above the slug keeps the base profile, pushed up by the slug's growth
+        # (see get_temperature_at_fraction); below the slug the tank is cold.
+        growth_pct = (self._slug_vol_gal - self._original_slug_vol_gal) / self.total_volume_gal * 100.0
+        bottom_pct = 100.0 - draw_gal_pct
+        above_pct  = 100.0 - max(bottom_pct, self._slug_top_pct)
+        slug_pct   = max(0.0, self._slug_top_pct - max(bottom_pct, self._cold_pct))
+        cold_pct   = draw_gal_pct - above_pct - slug_pct
+        above_temp_f = self._zone_average_temp_f(100.0 - above_pct - growth_pct, 100.0 - growth_pct)
+        return (
+            above_temp_f * above_pct + self._slug_temp_f * slug_pct + self._cold_temp_f * cold_pct
+        ) / draw_gal_pct
+
     def get_temperature_at_fraction(self, fract: float, verbose = False) -> float:
         """
         Return water temperature at fractional tank height (0=bottom, 1=top).
-- 
2.43.0


From 161f0f72b038f54171f8f8b8fe7e4f0e336694a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:39 +0000
Subject: [PATCH 27/33] fix: keep the sized system on the multi-pass sizing
 curve of an even load shape

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 5c46c07..c38b2b1 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -329,7 +329,11 @@ class MultiPassRTPSystem(RTPSystem):
             min_run_hr = 1.0 / float(np.max(building.peak_load_shape)) * 1.001
 
             # Sweep only downward from the recommended max_daily_run_hr.
-            heat_hours = np.arange(self.max_daily_run_hr, min_run_hr, -step)
+            # The sized system is always on the curve, however even the load shape is.
+            heat_hours = [
+                self.max_daily_run_hr,
+                *np.arange(self.max_daily_run_hr - step, min_run_hr, -step),
+            ]
 
             heat_hours_out: list[float] = []
             capacity_out:   list[float] = []
-- 
2.43.0


From 064299cd3b4716c15c21446c5da88ec6730a2410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:14 +0000
Subject: [PATCH 28/33] fix: forget the swing tank's mix fraction when the load
 leaves nothing to store

---
 src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..575ca77 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -452,6 +452,7 @@ class SwingSystem(RecircSystem):
 
         peak_indices = _get_peak_indices(hourly_diff)
         if not peak_indices:
+            self._eff_mix_fraction = 1.0
             return 0.0
 
         n_real_peaks = len(peak_indices)
-- 
2.43.0


From 08123dfb195f9d78fd9681c5ef57e2552893678f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:41 +0000
Subject: [PATCH 29/33] fix: a loop that turns the mixed tank over within a
 step brings it to the return temperature, not beyond

---
 src/ecoengine/objects/components/storage/MixedStorageTank.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/components/storage/MixedStorageTank.py b/src/ecoengine/objects/components/storage/MixedStorageTank.py
index 745c0d4..6eb826a 100644
--- a/src/ecoengine/objects/components/storage/MixedStorageTank.py
+++ b/src/ecoengine/objects/components/storage/MixedStorageTank.py
@@ -179,7 +179,9 @@ class MixedStorageTank(StorageTank):
         duration_min : float
             Length of the timestep [minutes].
         """
-        vol_circulated_gal = flow_gpm * duration_min
+        # A step that turns the tank over more than once leaves it at return_temp_f,
+        # not beyond.
+        vol_circulated_gal = min(flow_gpm * duration_min, self.total_volume_gal)
         delta_t = (
             vol_circulated_gal
             * (return_temp_f - self._temperature_f)
-- 
2.43.0


From e58435957f2e3ed6e0cb65f4e11f1df76501a079 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 15:00:33 +0000
Subject: [PATCH 30/33] fix: tariff lookups find the hour of a step exactly for
 timesteps that do not divide the hour

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index bf4b48e..79eaed6 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -575,7 +575,7 @@ class UtilityCostTracker:
         -------
         float
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = math.floor(step * timestep_min / 60)
         if len(self.energy_charge_by_hour) == 8760:
             return self.energy_charge_by_hour[hour_of_year]
         period = self.demand_period_chart[hour_of_year]
@@ -594,7 +594,7 @@ class UtilityCostTracker:
         -------
         int
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = math.floor(step * timestep_min / 60)
         return self.demand_period_chart[hour_of_year]
 
     def get_demand_charge_for_period(self, period_key: int, max_kw: float) -> float:
-- 
2.43.0


From b5626c5b56dfa5912e3c551ea053860f6134789f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 15:00:33 +0000
Subject: [PATCH 31/33] fix: instantaneous heaters are sized on the design day
 while the annual load shape is switched on

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 4d15890..40c5507 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -80,8 +80,16 @@ class InstantWHSystem(DHWSystem):
         design_inlet_temp_f = self._require_design_inlet_temp(building)
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
-        # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        # Sizing is based on the design day, also while the annual shape is switched on
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
+        try:
+            # Peak instantaneous generation rate [gal/hr at supply temp]
+            peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
+        finally:
+            if was_annual:
+                building.set_to_annual_load_shape()
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 41e48877dcbff5533bac5e8626c9ea82253a5ba2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 15:00:33 +0000
Subject: [PATCH 32/33] fix: multi-pass capacity trials run on the design day
 while the annual load shape is switched on

---
 .../rtp_systems/MultiPassRTPSystem.py          | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index c38b2b1..e3f7987 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -115,6 +115,24 @@ class MultiPassRTPSystem(RTPSystem):
                         f"percent_useable={percent_useable:.3f})."
                     )
 
+        if building.is_annual_load_shape():
+            # The capacity-boost trials run on the design day, like size()
+            building.set_to_daily_load_shape()
+            try:
+                return cls.from_size(
+                    building, supply_temp_f, storage_temp_f, return_temp_f, return_flow_gpm,
+                    max_daily_run_hr=max_daily_run_hr,
+                    defrost_factor=defrost_factor,
+                    control_schedule=control_schedule,
+                    control_map=control_map,
+                    strat_slope=strat_slope,
+                    percent_useable=percent_useable,
+                    capacity_boost_trial_days=capacity_boost_trial_days,
+                    capacity_boost_iterations=capacity_boost_iterations,
+                )
+            finally:
+                building.set_to_annual_load_shape()
+
         system = cls(
             water_heaters=[],
             storage_tank=None,
-- 
2.43.0


From 29f21594e6dca4557924fd182ce0039aeb3e91ab Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Wed, 18 Nov 2026 15:01:22 +0000
Subject: [PATCH 33/33] fix: swing trade-off element sizing works while the
 annual load shape is switched on

---
 .../objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 3def966..55535c0 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -351,7 +351,12 @@ class SwingERTrdOffSystem(SwingSystem):
 
         # 2-day minute-resolution demand array starting from the peak demand hour.
         daily_gal  = building.daily_dhw_use_supplyT_gal
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
         load_shape = building.peak_load_shape   # 24 normalised fractions
+        if was_annual:
+            building.set_to_annual_load_shape()
         hourly_diff = np.ones(24) / self.max_daily_run_hr - load_shape
         peak_indices = _get_peak_indices(hourly_diff)
         peak_idx = peak_indices[0] if peak_indices else 0
-- 
2.43.0

