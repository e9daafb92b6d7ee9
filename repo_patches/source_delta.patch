From cf212c5b42dec936ef232f2fc08b80632868e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:19 +0000
Subject: [PATCH 01/23] fix: start every simulation with all heaters off

---
 src/ecoengine/interfaces/Simulator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..c75843b 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -57,6 +57,14 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
     from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
     sim_run.show_tm_panel = isinstance(dhw_system, SwingSystem)
 
+    # Start every run with all heaters off: their on/off state persists between
+    # calls, so an earlier (possibly aborted) run must not leak into this one.
+    for wh in dhw_system.water_heaters:
+        wh.turn_off()
+    tm_heater = getattr(dhw_system, "tm_water_heater", None)
+    if tm_heater is not None:
+        tm_heater.turn_off()
+
     # Initialize storage tanks
     inlet_temp_f    = building.get_design_inlet_water_temp_f() or 50.0
     percent_useable = _initial_percent_useable(dhw_system)
-- 
2.43.0


From ef41be3c9ac149d04d938628733c6afa32297921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:26 +0000
Subject: [PATCH 02/23] fix: restore the building's load shapes when sizing
 fails part way

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py | 22 ++++++++-----------
 .../dhwsystems/recirc_systems/SwingSystem.py  | 15 +++++--------
 .../rtp_systems/MultiPassRTPSystem.py         | 14 +++++-------
 3 files changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..41714e9 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -330,8 +330,8 @@ class DHWSystem:
             If the building has no design inlet water temperature available
             (no ClimateZone was provided at construction).
         """
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         # When load shifting, the heater cannot run during shed hours, so the
@@ -379,9 +379,7 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
@@ -457,8 +455,8 @@ class DHWSystem:
             ``"storage_storageT_gal"`` : list[float] — storage [gal at storageT]
             ``"recommended_index"``    : int — index of ``max_daily_run_hr``
         """
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         # Prefer the strat_slope that was actually used during size(), so the
@@ -518,8 +516,7 @@ class DHWSystem:
                 "recommended_index":    rec_index,
             }
         finally:
-            if was_annual:
-                building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     def get_ls_sizing_curve(
         self,
@@ -579,8 +576,8 @@ class DHWSystem:
                 "Use get_sizing_curve() for systems without load shifting."
             )
 
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         # Prefer the strat_slope that was actually used during size().
@@ -642,8 +639,7 @@ class DHWSystem:
             }
         finally:
             self.max_daily_run_hr = original_max_run_hr
-            if was_annual:
-                building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     def plot_sizing_curve(
         self,
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..43b0df0 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -196,8 +196,8 @@ class SwingSystem(RecircSystem):
         The SwingTank capacity formula uses storage temperature, not supply
         temperature, matching the original codebase's _primaryHeatHrs2kBTUHR.
         """
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         original_max_run_hr = self.max_daily_run_hr
@@ -266,9 +266,7 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
@@ -288,8 +286,8 @@ class SwingSystem(RecircSystem):
         class loop calls capacity first, which leaves ``_eff_mix_fraction`` at
         its previous value.  This override swaps the order.
         """
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         _strat_slope = getattr(self, "_sizing_strat_slope", strat_slope)
@@ -340,8 +338,7 @@ class SwingSystem(RecircSystem):
                 "recommended_index":    rec_index,
             }
         finally:
-            if was_annual:
-                building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     # ------------------------------------------------------------------
     # TM sizing
diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..89ba9cf 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -230,8 +230,8 @@ class MultiPassRTPSystem(RTPSystem):
                 "Remove the 'shed' key from control_map."
             )
 
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         try:
@@ -252,8 +252,7 @@ class MultiPassRTPSystem(RTPSystem):
             self._sizing_strat_slope           = strat_slope
 
         finally:
-            if was_annual:
-                building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     # ------------------------------------------------------------------
     # Sizing curve
@@ -297,8 +296,8 @@ class MultiPassRTPSystem(RTPSystem):
             ``"storage_storageT_gal"`` : list[float] — storage [gal at storageT]
             ``"recommended_index"``    : int — always 0 for MPRTP
         """
-        was_annual = building.is_annual_load_shape()
-        if was_annual:
+        load_shapes = (building.peak_load_shape, building.avg_load_shape)
+        if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
         _strat_slope = getattr(self, "_sizing_strat_slope", strat_slope)
@@ -410,8 +409,7 @@ class MultiPassRTPSystem(RTPSystem):
                 "recommended_index":    rec_index,
             }
         finally:
-            if was_annual:
-                building.set_to_annual_load_shape()
+            building.peak_load_shape, building.avg_load_shape = load_shapes
 
     # ------------------------------------------------------------------
     # Running volume — growing-slug simulation
-- 
2.43.0


From 047861b4f48800f425e6fb3c8e40522d8d66d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:31 +0000
Subject: [PATCH 03/23] fix: swing-tank sizing curves no longer change the
 sized system

---
 .../dhwsystems/recirc_systems/SwingSystem.py        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 43b0df0..f58088f 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -309,6 +309,7 @@ class SwingSystem(RecircSystem):
             storage_out:    list[float] = []
 
             original_run_hr = self.max_daily_run_hr
+            original_eff_mix = self._eff_mix_fraction
             try:
                 for h in heat_hours:
                     self.max_daily_run_hr = float(h)
@@ -328,6 +329,7 @@ class SwingSystem(RecircSystem):
                     storage_out.append(storage_vol)
             finally:
                 self.max_daily_run_hr = original_run_hr
+                self._eff_mix_fraction = original_eff_mix
 
             rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
 
@@ -340,6 +342,17 @@ class SwingSystem(RecircSystem):
         finally:
             building.peak_load_shape, building.avg_load_shape = load_shapes
 
+    def get_ls_sizing_curve(self, *args, **kwargs) -> dict:
+        """
+        As DHWSystem.get_ls_sizing_curve(), without leaving the sweep's
+        ``_eff_mix_fraction`` behind on the sized system.
+        """
+        original_eff_mix = self._eff_mix_fraction
+        try:
+            return super().get_ls_sizing_curve(*args, **kwargs)
+        finally:
+            self._eff_mix_fraction = original_eff_mix
+
     # ------------------------------------------------------------------
     # TM sizing
     # ------------------------------------------------------------------
-- 
2.43.0


From 41004e480c5b1d6c43d14f325446cbef7f269ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:05 +0000
Subject: [PATCH 04/23] fix: a failed swing-tank sizing leaves the previous
 sizing results in place

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 21 ++++++++++++-------
 .../dhwsystems/recirc_systems/SwingSystem.py  |  4 ++++
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..76c67bf 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -285,14 +285,19 @@ class SwingERTrdOffSystem(SwingSystem):
         """
         Size the system: base SwingSystem sizing followed by ER element sizing.
         """
-        super().size(
-            building,
-            control_schedule=control_schedule,
-            control_map=control_map,
-            strat_slope=strat_slope,
-            load_shift_fract_total_vol=load_shift_fract_total_vol,
-        )
-        self._size_er_element(building)
+        sized_state = dict(self.__dict__)
+        try:
+            super().size(
+                building,
+                control_schedule=control_schedule,
+                control_map=control_map,
+                strat_slope=strat_slope,
+                load_shift_fract_total_vol=load_shift_fract_total_vol,
+            )
+            self._size_er_element(building)
+        except BaseException:
+            self.__dict__.update(sized_state)   # no partial sizing results on failure
+            raise
 
     def _size_er_element(self, building: Building) -> None:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index f58088f..d3e008e 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -200,6 +200,7 @@ class SwingSystem(RecircSystem):
         if building.is_annual_load_shape():
             building.set_to_daily_load_shape()
 
+        sized_state         = dict(self.__dict__)
         original_max_run_hr = self.max_daily_run_hr
         if control_schedule and self._is_load_shifting(control_map):
             non_shed = float(sum(1 for h in control_schedule if h != "shed"))
@@ -264,6 +265,9 @@ class SwingSystem(RecircSystem):
             self._minimum_storage_storageT_gal = storage_vol_storageT_gal
             self._sizing_strat_slope           = strat_slope
 
+        except BaseException:
+            self.__dict__.update(sized_state)   # no partial sizing results on failure
+            raise
         finally:
             self.max_daily_run_hr = original_max_run_hr
             building.peak_load_shape, building.avg_load_shape = load_shapes
-- 
2.43.0


From d958addf1cb6bf9129d5d8cb252bcc0fcd94e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:10 +0000
Subject: [PATCH 05/23] fix: single-pass RTP load-shift sizing restores the
 daily use exactly

---
 .../objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..2e06102 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From 84bb6a0ecbd2888dbc688260dbeec14cccc791a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:13 +0000
Subject: [PATCH 06/23] fix: ER trade-off points restore system and building
 when they fail part way

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 56 ++++++++++---------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 76c67bf..57caa9b 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -580,33 +580,35 @@ class SwingERTrdOffSystem(SwingSystem):
         fract_covered: list[float] = []
         startind = 0
 
-        i = 120.0
-        while i > 0:
-            if i == 100.0:
-                startind   = len(fract_covered)
-                total_tm_i = original_total_tm
-                er_needed  = True
-            else:
-                building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
-                self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
-                self._er_capacity_kbtuh            = None
-                self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-
-            er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
-            fract_covered.append(i)
-            i -= 10.0
-
-            if not er_needed:
-                break  # no ER at this fraction; lower fractions won't need it either
-
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
+        try:
+            i = 120.0
+            while i > 0:
+                if i == 100.0:
+                    startind   = len(fract_covered)
+                    total_tm_i = original_total_tm
+                    er_needed  = True
+                else:
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
+                    self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
+                    self._er_capacity_kbtuh            = None
+                    self.er_safety_factor              = additional_er_safety
+                    self._size_er_element(building)
+                    self.er_safety_factor              = original_er_safety
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+
+                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
+                fract_covered.append(i)
+                i -= 10.0
+
+                if not er_needed:
+                    break  # no ER at this fraction; lower fractions won't need it either
+        finally:
+            # Restore mutated state
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
+            self._minimum_tm_capacity_kbtuh    = original_total_tm
+            self._er_capacity_kbtuh            = original_er_kbtuh
+            self.er_safety_factor              = original_er_safety
 
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
-- 
2.43.0


From 3cecc545b041077ac7d65bae3a4b6767d154ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:23 +0000
Subject: [PATCH 07/23] fix: multi-pass RTP steps report the outdoor
 temperature, not the tank top

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 89ba9cf..2cdbe37 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -636,7 +636,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From d4898af9b15602a6cc6d47213ac83aa5c036d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:27 +0000
Subject: [PATCH 08/23] fix: mixing valve no longer divides by zero on a
 depleted tank

---
 src/ecoengine/objects/dhwsystems/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..b1c51c4 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -3,6 +3,17 @@ from ecoengine.constants.constants import _RHO_CP
 
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
+    total_flow_gal = load_supplyT_gal + flow_returnT_gal
+    if total_flow_gal <= 0:
+        return {"storage_draw_gal" : 0.0, "inlet_temp_f" : cold_temp_f}
+    if storage_temp_f <= cold_temp_f or storage_temp_f == supply_temp_f:
+        # Nothing to temper with (depleted storage, or storage exactly at supply
+        # temperature): the valve is fully open and all flow passes through storage.
+        return {
+            "storage_draw_gal" : total_flow_gal,
+            "inlet_temp_f" : ((load_supplyT_gal * cold_temp_f) + (flow_returnT_gal * return_temp_f)) / total_flow_gal
+        }
+
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
     critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
 
-- 
2.43.0


From 3ae02fabbe1df95c50fab82d0436e4de12bede0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:12 +0000
Subject: [PATCH 09/23] fix: keep the temperature-maintenance power series
 aligned with the time steps

---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..6913613 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -76,7 +76,7 @@ class SimulationRun:
         # TM (swing tank) per-timestep data — only populated for SwingSystem runs
         self.tm_tank_temp_f:           list[float] = []
         self.tm_heater_output_kbtuh:   list[float] = []
-        self.tm_heater_input_kw:   list[float] = []
+        self.tm_heater_input_kw:   list[float | None] = []
 
         # Cumulative outage counter [minutes]
         self.outage_minutes: int = 0
@@ -150,7 +150,9 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # A TM heater that is off reports None; keep the series aligned with the
+        # steps so that each power value is billed in its own hour.
+        if tm_tank_temp_f is not None or tm_heater_input_kw is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From 42113a9435ec179dec97d119fea5913c9528e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:16 +0000
Subject: [PATCH 10/23] fix: monthly energy, monthly cost and peak power
 include temperature-maintenance power

---
 .../objects/simulation/SimulationRun.py       | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 6913613..962edc6 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -252,6 +252,14 @@ class SimulationRun:
             f"of the simulation with an average delivered water temperature of {avg_delivery_temp:.1f}°F."
         )
 
+    def _combined_power_kw(self) -> list[float]:
+        """Return primary plus TM electrical power for each recorded step [kW]."""
+        tm = self.tm_heater_input_kw
+        return [
+            (kw or 0.0) + ((tm[i] or 0.0) if i < len(tm) else 0.0)
+            for i, kw in enumerate(self.heater_power_in_kw)
+        ]
+
     def get_total_energy_kwh(self) -> float:
         """
         Return total electrical energy consumed over the simulation [kWh].
@@ -273,12 +281,14 @@ class SimulationRun:
         """
         Return peak instantaneous power draw observed during the simulation [kW].
 
+        Includes primary heater power and, when present, TM heater power drawn
+        in the same timestep.
+
         Returns
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        return max(self._combined_power_kw(), default=0.0)
 
     def get_summary(self) -> dict:
         """
@@ -601,8 +611,7 @@ class SimulationRun:
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
 
-        for i, kw_raw in enumerate(self.heater_power_in_kw):
-            kw   = kw_raw or 0.0
+        for i, kw in enumerate(self._combined_power_kw()):
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -694,12 +703,12 @@ class SimulationRun:
 
         hours_per_step = self.timestep_min / 60.0
         steps_per_day  = 24 * 60 // self.timestep_min
+        power_kw = self._combined_power_kw()
         step = 0
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
             monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
-                for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
+                kw * hours_per_step for kw in power_kw[step : step + n_steps]
             )
             step += n_steps
         return monthly
-- 
2.43.0


From 3cc3a7acedc2e4d2624d4630426e80100955a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 11/23] fix: monthly demand charges of imported tariffs land in
 the right month

---
 .../objects/simulation/SimulationRun.py       | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 962edc6..18c7aeb 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -610,24 +610,23 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_of_period:  dict[int, int]   = {}
 
         for i, kw in enumerate(self._combined_power_kw()):
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
-            energy_by_month[_step_to_month(i, self.timestep_min)] += (
-                kw * hours_per_step * rate
-            )
+            month = _step_to_month(i, self.timestep_min)
+            energy_by_month[month] += kw * hours_per_step * rate
             period = uc.get_demand_period_at_step(i, self.timestep_min)
+            month_of_period.setdefault(period, month)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month it first occurs
+        # in (period labels of imported tariffs need not encode the month).
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            m = month_of_period[period]
+            demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -650,6 +649,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_of_period:  dict[int, int]   = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -658,6 +658,7 @@ class SimulationRun:
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             rate   = uc.get_energy_charge_at_step(i, self.timestep_min)
             month  = _step_to_month(i, self.timestep_min)
+            month_of_period.setdefault(period, month)
             cost   = kw * hours_per_step * rate
             if uc.is_peak_map.get(period, False):
                 energy_peak[month] += cost
@@ -666,17 +667,15 @@ class SimulationRun:
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = month_of_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From 06a19d4bc885a603c6bd1d1ba66ac7c79c1db623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 12/23] fix: tariff CSV export keeps hourly energy rates and
 period types

---
 .../objects/building/UtilityCostTracker.py    | 57 ++++++++++++++-----
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..26026cf 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -432,8 +432,9 @@ class UtilityCostTracker:
         ``Monthly Base Charge`` is read from the first data row only.
         Demand and energy rates are read from the first row in which each
         ``Demand Period`` value appears; subsequent rows may leave those
-        columns blank.  Demand periods with odd labels are treated as peak;
-        even labels as off-peak.
+        columns blank.  An optional ``Period Type`` column (``peak``,
+        ``off-peak`` or ``discount``) classifies each period in its first row;
+        without it, odd labels are treated as peak and even labels as off-peak.
 
         Parameters
         ----------
@@ -485,6 +486,7 @@ class UtilityCostTracker:
         demand_idx = header.index("Demand Rate ($/kW)")
         period_idx = header.index("Demand Period")
         base_idx   = header.index("Monthly Base Charge")
+        type_idx   = header.index("Period Type") if "Period Type" in header else None
 
         try:
             monthly_base_charge = float(rows[0][base_idx])
@@ -543,8 +545,14 @@ class UtilityCostTracker:
                         f"for Energy Rate ($/kWh), Demand Rate ($/kW), and Demand Period "
                         f"in this row."
                     )
-                is_peak_map[period]     = period % 2 == 1
-                is_discount_map[period] = False
+                period_type = row[type_idx] if type_idx is not None and type_idx < len(row) else ""
+                if period_type not in ("", "peak", "off-peak", "discount"):
+                    raise ValueError(
+                        f"Unable to read value in row {i} of csv. "
+                        f"Please check values for Period Type in this row."
+                    )
+                is_peak_map[period]     = period_type == "peak" if period_type else period % 2 == 1
+                is_discount_map[period] = period_type == "discount"
 
         return cls(
             demand_period_chart=demand_period_chart,
@@ -554,6 +562,7 @@ class UtilityCostTracker:
             is_discount_map=is_discount_map,
             monthly_base_charge=monthly_base_charge,
             energy_charge_by_hour=energy_charge_by_hour,
+            include_discount=any(is_discount_map.values()),
         )
 
     # ------------------------------------------------------------------
@@ -639,9 +648,10 @@ class UtilityCostTracker:
         Export the rate structure to a CSV file readable by ``from_csv``.
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
-        Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        Energy and demand rates and the period type are written on the *first*
+        occurrence of each demand period; subsequent rows leave those fields
+        blank, except hours whose energy rate differs from their period's.  The
+        monthly base charge appears only in the first data row.
 
         Parameters
         ----------
@@ -651,9 +661,13 @@ class UtilityCostTracker:
         header = [
             "Date", "Demand Period",
             "Energy Rate ($/kWh)", "Demand Rate ($/kW)",
-            "Monthly Base Charge",
+            "Period Type", "Monthly Base Charge",
         ]
-        seen_periods: set[int] = set()
+        hourly_rates = (
+            self.energy_charge_by_hour
+            if len(self.energy_charge_by_hour) == 8760 else None
+        )
+        written_rate: dict[int, float] = {}
         month = 0
         day   = 1
 
@@ -672,13 +686,28 @@ class UtilityCostTracker:
                 date_str = f"{_MONTH_NAMES[month]} {day}, {h % 24:02d}:00"
                 period   = self.demand_period_chart[h]
 
-                if period not in seen_periods:
-                    energy_rate = self.energy_charge_map.get(period, "")
+                energy_rate = (
+                    self.energy_charge_map.get(period, "")
+                    if hourly_rates is None else hourly_rates[h]
+                )
+                if period not in written_rate:
+                    written_rate[period] = energy_rate
                     demand_rate = self.demand_charge_map.get(period, "")
-                    seen_periods.add(period)
+                    period_type = self._period_type(period)
                 else:
-                    energy_rate = ""
+                    if energy_rate == written_rate[period]:
+                        energy_rate = ""
                     demand_rate = ""
+                    period_type = ""
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
-                writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
+                writer.writerow([
+                    date_str, period, energy_rate, demand_rate,
+                    period_type, base_charge,
+                ])
+
+    def _period_type(self, period: int) -> str:
+        """Return the label written to the CSV for *period*."""
+        if self.is_discount_map.get(period, False):
+            return "discount"
+        return "peak" if self.is_peak_map.get(period, False) else "off-peak"
-- 
2.43.0


From cbfee0b0aa648e61d63b41d30e7725ea976cfa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 13/23] fix: refuse a tariff CSV whose last row is cut off

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 26026cf..9f98f37 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -488,6 +488,9 @@ class UtilityCostTracker:
         base_idx   = header.index("Monthly Base Charge")
         type_idx   = header.index("Period Type") if "Period Type" in header else None
 
+        if len(rows[-1]) < len(header):
+            raise ValueError("Last row of utility calculation csv is incomplete.")
+
         try:
             monthly_base_charge = float(rows[0][base_idx])
         except (ValueError, IndexError):
-- 
2.43.0


From b9438a099c390cda72a524b095bcdbf0fd884fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:21 +0000
Subject: [PATCH 14/23] fix: refuse weather and inlet-water files with missing
 rows

---
 src/ecoengine/objects/building/ClimateZone.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..3062f82 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -387,6 +387,11 @@ class ClimateZone:
             for row in reader:
                 oat_values.append(float(row[col_index]))
 
+        if len(oat_values) != 8760:
+            raise ValueError(
+                f"Expected 8760 hourly outdoor air temperatures for climate zone "
+                f"{zone_id}, found {len(oat_values)}."
+            )
         return oat_values
 
     @classmethod
@@ -413,4 +418,9 @@ class ClimateZone:
             for row in reader:
                 monthly_temps.append(float(row[col_index]))
 
+        if len(monthly_temps) != 12:
+            raise ValueError(
+                f"Expected 12 monthly inlet water temperatures for climate zone "
+                f"{zone_id}, found {len(monthly_temps)}."
+            )
         return monthly_temps
-- 
2.43.0


From 8f5ce1bcd72e2ebe1199d05f1323bd2ef29f6042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:01 +0000
Subject: [PATCH 15/23] fix: a failed rebuild keeps the previous building with
 the previous system

---
 src/ecoengine/interfaces/EcosizerEngine.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..71f3d05 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -677,8 +677,14 @@ class EcosizerEngine:
 
     def build(self) -> None:
         """Build the Building and DHWSystem (including sizing) from stored params."""
-        self._building   = self._build_building()
-        self._dhw_system = self._build_dhw_system()
+        previous_building = self._building
+        self._building    = self._build_building()
+        try:
+            self._dhw_system = self._build_dhw_system()
+        except BaseException:
+            # Keep building and system consistent: the old system stays in use.
+            self._building = previous_building
+            raise
 
     def _build_building(self):
         """Construct and return the Building for the configured type and climate."""
-- 
2.43.0


From f5e5171d555260900c2ba7ad0817c549b243dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 16/23] fix: recirculation cannot carry a mixed tank past the
 return temperature

When the loop moved more than the tank volume within one timestep (annual runs
with a small temperature-maintenance tank) the tank temperature overshot the
return temperature and oscillated, growing without bound.
---
 src/ecoengine/objects/components/storage/MixedStorageTank.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/components/storage/MixedStorageTank.py b/src/ecoengine/objects/components/storage/MixedStorageTank.py
index 745c0d4..c5617b6 100644
--- a/src/ecoengine/objects/components/storage/MixedStorageTank.py
+++ b/src/ecoengine/objects/components/storage/MixedStorageTank.py
@@ -179,7 +179,8 @@ class MixedStorageTank(StorageTank):
         duration_min : float
             Length of the timestep [minutes].
         """
-        vol_circulated_gal = flow_gpm * duration_min
+        # The loop can at most replace the whole tank within the timestep.
+        vol_circulated_gal = min(flow_gpm * duration_min, self.total_volume_gal)
         delta_t = (
             vol_circulated_gal
             * (return_temp_f - self._temperature_f)
-- 
2.43.0


From a32dd79ef05b603d42c9f3f32fe972cb6e3e9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 17/23] fix: a system sized to no storage simulates as an
 outage instead of dividing by zero

---
 src/ecoengine/objects/components/storage/StratifiedTank.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoengine/objects/components/storage/StratifiedTank.py b/src/ecoengine/objects/components/storage/StratifiedTank.py
index e79021a..f389fa6 100644
--- a/src/ecoengine/objects/components/storage/StratifiedTank.py
+++ b/src/ecoengine/objects/components/storage/StratifiedTank.py
@@ -115,6 +115,8 @@ class StratifiedTank(StorageTank):
         float
             Temperature [°F], clamped to [inlet_temp_f, outlet_temp_f].
         """
+        if self.total_volume_gal <= 0.0:
+            return self._inlet_temp_f   # no storage: nothing hotter than the inlet
         x_pct     = fract * 100.0
         shift_pct = self._delta_gal / self.total_volume_gal * 100.0
         temp      = self.strat_slope * (x_pct + shift_pct) + self._strat_inter
@@ -135,6 +137,8 @@ class StratifiedTank(StorageTank):
         # Solve for x_pct where T = supply_temp_f (lower boundary of usable zone):
         #   strat_slope * (x_pct + shift_pct) + strat_inter = supply_temp_f
         #   x_pct = (supply_temp_f - strat_inter) / strat_slope - shift_pct
+        if self.total_volume_gal <= 0.0:
+            return 0.0
         shift_pct     = self._delta_gal / self.total_volume_gal * 100.0
         x_supply_pct  = (supply_temp_f - self._strat_inter) / self.strat_slope - shift_pct
         x_supply_pct  = max(0.0, min(100.0, x_supply_pct))
-- 
2.43.0


From 2a9eb0bee14ce6d0e2635ae4f6b502a602ac98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 18/23] fix: tariff look-ups use the hour that contains the
 step for every step length

Dividing by 60/timestep in floating point put steps that start exactly on an hour
(29-, 58-, 85-minute steps, ...) into the hour before.
---
 src/ecoengine/objects/building/UtilityCostTracker.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index 9f98f37..b63d8b6 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -1,7 +1,6 @@
 from __future__ import annotations
 
 import csv
-import math
 from io import TextIOWrapper
 
 # ---------------------------------------------------------------------------
@@ -587,7 +586,7 @@ class UtilityCostTracker:
         -------
         float
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = int(step * timestep_min // 60)
         if len(self.energy_charge_by_hour) == 8760:
             return self.energy_charge_by_hour[hour_of_year]
         period = self.demand_period_chart[hour_of_year]
@@ -606,7 +605,7 @@ class UtilityCostTracker:
         -------
         int
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = int(step * timestep_min // 60)
         return self.demand_period_chart[hour_of_year]
 
     def get_demand_charge_for_period(self, period_key: int, max_kw: float) -> float:
-- 
2.43.0


From 5a35e2c9a3c72a09b8085701945c529b5f9c35e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:13 +0000
Subject: [PATCH 19/23] fix: monthly energy counts every step for step lengths
 that do not divide a day

---
 src/ecoengine/objects/simulation/SimulationRun.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 18c7aeb..68a4c89 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -701,13 +701,6 @@ class SimulationRun:
             return monthly
 
         hours_per_step = self.timestep_min / 60.0
-        steps_per_day  = 24 * 60 // self.timestep_min
-        power_kw = self._combined_power_kw()
-        step = 0
-        for month_idx, days in enumerate(_DAYS_IN_MONTH):
-            n_steps = days * steps_per_day
-            monthly[month_idx] = sum(
-                kw * hours_per_step for kw in power_kw[step : step + n_steps]
-            )
-            step += n_steps
+        for i, kw in enumerate(self._combined_power_kw()):
+            monthly[_step_to_month(i, self.timestep_min)] += kw * hours_per_step
         return monthly
-- 
2.43.0


From e4aba4c40eed9cfcd9aec91b3db764cd3e9e7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:35 +0000
Subject: [PATCH 20/23] fix: switching to daily load shapes that fails part way
 keeps both previous shapes

---
 src/ecoengine/objects/building/Building.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..8a7132c 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -457,8 +457,9 @@ class Building:
                 f"This building is type '{self.building_type}'."
             )
         data = _load_shape_json('multi_family')
-        self.peak_load_shape = np.array(data['loadshapes']['Stream'])
-        self.avg_load_shape  = np.array(data['loadshapes']['Stream_Avg'])
+        peak_ls = np.array(data['loadshapes']['Stream'])
+        avg_ls  = np.array(data['loadshapes']['Stream_Avg'])
+        self.peak_load_shape, self.avg_load_shape = peak_ls, avg_ls
 
     # ------------------------------------------------------------------
     # Simulation interface
-- 
2.43.0


From 6ac5b7aa9ec210c013eeb4ab17f159d80c65c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:42 +0000
Subject: [PATCH 21/23] fix: parallel-loop simulation no longer writes to
 stdout every step (a closed or full console made the run fail)

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From 220062eee6566512157136be7d45d37a52670492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:42 +0000
Subject: [PATCH 22/23] fix: load-up hours without load_up_aquastat_fract use
 aquastat_fract (the simulation failed with 'No Controls configured')

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 71f3d05..025e04f 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -770,11 +770,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From 4c6bd0dc8acf310532801975ce2350e423d04347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:05 +0000
Subject: [PATCH 23/23] fix: read climate tables as UTF-8 whatever the locale
 (loading failed under an ASCII locale)

---
 src/ecoengine/objects/building/ClimateZone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index 3062f82..3fef40c 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -16,7 +16,7 @@ _CLIMATE_DATA_PKG = 'ecoengine.data.climate_data'
 
 def _open_climate_csv(filename: str):
     """Return an open text stream for a file in the climate_data package."""
-    return (pkg_resources.files(_CLIMATE_DATA_PKG) / filename).open('r', newline='')
+    return (pkg_resources.files(_CLIMATE_DATA_PKG) / filename).open('r', newline='', encoding='utf-8-sig')
 
 
 def _day_of_year_to_month(day_of_year: int) -> int:
-- 
2.43.0

