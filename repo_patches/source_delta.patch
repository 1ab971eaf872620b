From d130bb88b0c2a7a90aff92cf8cb01af9c6ff0647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:17 +0000
Subject: [PATCH 01/33] fix: validate custom-only load shapes and magnitudes in
 Building

---
 src/ecoengine/objects/building/Building.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..7848b6d 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -324,6 +324,8 @@ class Building:
                 )
             raw = list(custom_peak_ls)
             raw_sum = sum(raw)
+            if raw_sum <= 0:
+                raise ValueError("custom_peak_load_shape must have a positive total.")
 
             if magnitude is None:
                 # derive magnitude from unnormalized shape sum
@@ -331,16 +333,20 @@ class Building:
                 peak_ls   = np.array([x / raw_sum for x in raw])
             else:
                 daily_gal = float(magnitude)
-                # normalize if unnormalized, otherwise validate
+                if daily_gal <= 0:
+                    raise ValueError("magnitude must be a positive number.")
+                # normalize if unnormalized, otherwise use as given
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
                 else:
-                    _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
+            _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
 
             if custom_avg_ls is not None:
                 raw_avg     = list(custom_avg_ls)
                 avg_sum     = sum(raw_avg)
+                if avg_sum <= 0:
+                    raise ValueError("custom_avg_load_shape must have a positive total.")
                 avg_ls      = np.array([x / avg_sum for x in raw_avg])
                 _validate_load_shape(list(avg_ls), 'custom_avg_load_shape')
             else:
-- 
2.43.0


From 8954459f964e443955ab03f88e72d6ad0c40483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:41 +0000
Subject: [PATCH 02/33] fix: reject climate zone ids outside the data instead
 of wrapping to another zone

---
 src/ecoengine/objects/building/ClimateZone.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/building/ClimateZone.py b/src/ecoengine/objects/building/ClimateZone.py
index b4b3b33..d8e6939 100644
--- a/src/ecoengine/objects/building/ClimateZone.py
+++ b/src/ecoengine/objects/building/ClimateZone.py
@@ -383,7 +383,12 @@ class ClimateZone:
         oat_values = []
         with _open_climate_csv('DryBulbTemperatures_ByClimateZone.csv') as f:
             reader = csv.reader(f)
-            next(reader)  # skip header row
+            header = next(reader)
+            if not 1 <= zone_id <= len(header):
+                raise ValueError(
+                    f"Climate zone {zone_id!r} is not available. "
+                    f"Valid zone IDs are 1-{len(header)}."
+                )
             for row in reader:
                 oat_values.append(float(row[col_index]))
 
-- 
2.43.0


From fb56ca940ef1340a38147f79cc74b2bed98929e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:41 +0000
Subject: [PATCH 03/33] fix: accept an integer zip code in EcosizerEngine as
 documented in the README

---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..e2f3ed0 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -704,11 +704,13 @@ class EcosizerEngine:
             return ClimateZone.from_zip_code(czv)
         if isinstance(czv, int) and 1 <= czv <= 96:
             return ClimateZone.from_zone_id(czv)
+        if isinstance(czv, int) and 10000 <= czv <= 99999:
+            return ClimateZone.from_zip_code(czv)
         if isinstance(czv, str):
             return ClimateZone.from_weather_station(czv)
         raise ValueError(
             f"Cannot determine ClimateZone from {czv!r}. "
-            "Pass a 5-digit CA zip code string, a zone ID int (1–96), "
+            "Pass a 5-digit CA zip code, a zone ID int (1–96), "
             "a weather station name string, or a dict with 'design_oat_f' "
             "and/or 'design_inlet_water_temp_f'."
         )
-- 
2.43.0


From e5973b347a22ab3eab95d32ef7230c7a904068e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 04/33] fix: attach the utility cost tracker given to
 EcosizerEngine to its building

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index e2f3ed0..99e0054 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -693,6 +693,7 @@ class EcosizerEngine:
             gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From 868de62de9822278f9fdacf21359d5adf81902fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 05/33] fix: use the building-type default when EcosizerEngine
 gets no gpdpp

---
 src/ecoengine/interfaces/EcosizerEngine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 99e0054..be79d8a 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -686,11 +686,13 @@ class EcosizerEngine:
         from ecoengine.objects.building.ClimateZone import ClimateZone
 
         zone = self._build_climate_zone(ClimateZone)
+        # gpdpp=None means "use the building-type default"
+        gpdpp_kwargs = {} if self.gpdpp is None else {"gpdpp": self.gpdpp}
         return Building.from_building_type(
             building_type           = self.building_type,
             magnitude               = self.magnitude,
             climate_zone            = zone,
-            gpdpp                   = self.gpdpp,
+            **gpdpp_kwargs,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
             utility_cost_tracker    = self.utility_cost_tracker,
-- 
2.43.0


From e95f644bbe7f1df26042bda5550bbe3acbcc378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 06/33] fix: give load-up hours controls when no load-up
 aquastat fraction is set

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index be79d8a..b7b1d2c 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -769,11 +769,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0


From 1c9a953580102435168033352698a0c15ccba719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 07/33] fix: size a load-shift schedule without shed hours as a
 normal system

---
 src/ecoengine/interfaces/EcosizerEngine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index b7b1d2c..f5bb75b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -737,7 +737,8 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if not self.load_shift_schedule:
+        # A schedule without a shed hour does not shift load
+        if not self.load_shift_schedule or 0 not in self.load_shift_schedule:
             return ["normal"] * 24, {"normal": normal}
 
         # Build schedule from 24-element 0/1 list (0 = shed, 1 = run)
-- 
2.43.0


From 7c640a8fa2325fe9db2471b37bce931335a141c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 08/33] fix: pass num_tm_heaters to a sized parallel loop
 system

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index f5bb75b..8235e21 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -846,6 +846,7 @@ class EcosizerEngine:
                     tm_off_temp_f              = self.tm_off_temp_f,
                     tm_off_time_hr             = self.tm_off_time_hr,
                     tm_safety_factor           = self.tm_safety_factor,
+                    num_tm_heaters             = self.num_tm_heaters,
                     max_daily_run_hr           = self.max_daily_run_hr,
                     defrost_factor             = self.defrost_factor,
                     control_schedule           = control_schedule,
-- 
2.43.0


From cf684705a867db93425afd078ca27ee42b1e050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 09/33] fix: keep the recorded TM power aligned with the
 timesteps when the TM heater is off

---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..54cd5f6 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -76,7 +76,7 @@ class SimulationRun:
         # TM (swing tank) per-timestep data — only populated for SwingSystem runs
         self.tm_tank_temp_f:           list[float] = []
         self.tm_heater_output_kbtuh:   list[float] = []
-        self.tm_heater_input_kw:   list[float] = []
+        self.tm_heater_input_kw:   list[float | None] = []
 
         # Cumulative outage counter [minutes]
         self.outage_minutes: int = 0
@@ -150,7 +150,9 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # A TM heater that is off reports no power: keep the series aligned with
+        # the other per-timestep series by recording the gap.
+        if tm_heater_input_kw is not None or tm_tank_temp_f is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From c66857637cc830101b6bb3784c5915d57c9821f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 10/33] fix: include TM heater power in
 get_monthly_cost_breakdown

---
 src/ecoengine/objects/simulation/SimulationRun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 54cd5f6..2c2603f 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -603,6 +603,8 @@ class SimulationRun:
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
+            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
+                kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
-- 
2.43.0


From d351d0d6f51d8e5361d6b17633982b816b9a0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 11/33] fix: include TM heater energy in get_monthly_energy_kwh

---
 src/ecoengine/objects/simulation/SimulationRun.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 2c2603f..9285340 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -699,9 +699,10 @@ class SimulationRun:
         step = 0
         for month_idx, days in enumerate(_DAYS_IN_MONTH):
             n_steps = days * steps_per_day
-            monthly[month_idx] = sum(
-                (self.heater_power_in_kw[i] or 0.0) * hours_per_step
-                for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
-            )
+            for power_kw in (self.heater_power_in_kw, self.tm_heater_input_kw):
+                monthly[month_idx] += sum(
+                    (power_kw[i] or 0.0) * hours_per_step
+                    for i in range(step, min(step + n_steps, len(power_kw)))
+                )
             step += n_steps
         return monthly
-- 
2.43.0


From df177fe68cb6463d04cd9ab792a202e13ab763e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 12/33] fix: include TM heater power in get_peak_demand_kw

---
 src/ecoengine/objects/simulation/SimulationRun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 9285340..96b55f5 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -277,8 +277,10 @@ class SimulationRun:
         -------
         float
         """
-        non_none = [p for p in self.heater_power_in_kw if p is not None]
-        return max(non_none) if non_none else 0.0
+        totals = [p or 0.0 for p in self.heater_power_in_kw]
+        for i, p in enumerate(self.tm_heater_input_kw[:len(totals)]):
+            totals[i] += p or 0.0
+        return max(totals) if totals else 0.0
 
     def get_summary(self) -> dict:
         """
-- 
2.43.0


From 6bb61c7a69c5e7bd0f7d6b60e5e74cf0e6bd52f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 13/33] fix: do not drop or misplace demand charges of CSV
 tariffs in the monthly breakdowns

---
 .../objects/simulation/SimulationRun.py       | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 96b55f5..0e3d079 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -602,6 +602,7 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        peak_month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
@@ -614,15 +615,14 @@ class SimulationRun:
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                peak_month_by_period[period] = _step_to_month(i, self.timestep_min)
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month it peaked in
+        # (period keys of a CSV tariff need not encode the month).
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            m = peak_month_by_period[period]
+            demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -645,6 +645,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        peak_month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -660,18 +661,17 @@ class SimulationRun:
                 energy_off_peak[month] += cost
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                peak_month_by_period[period] = month
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = peak_month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From b12a7cfc8a08fedb6a79c646f8e01b066a9469cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 14/33] fix: write hourly energy rates that vary within a
 demand period in UtilityCostTracker.to_csv

---
 .../objects/building/UtilityCostTracker.py         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..a8c6433 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -653,7 +653,7 @@ class UtilityCostTracker:
             "Energy Rate ($/kWh)", "Demand Rate ($/kW)",
             "Monthly Base Charge",
         ]
-        seen_periods: set[int] = set()
+        seen_periods: dict[int, float] = {}
         month = 0
         day   = 1
 
@@ -672,12 +672,18 @@ class UtilityCostTracker:
                 date_str = f"{_MONTH_NAMES[month]} {day}, {h % 24:02d}:00"
                 period   = self.demand_period_chart[h]
 
+                if len(self.energy_charge_by_hour) == 8760:
+                    hour_rate = self.energy_charge_by_hour[h]
+                else:
+                    hour_rate = self.energy_charge_map.get(period, "")
+
                 if period not in seen_periods:
-                    energy_rate = self.energy_charge_map.get(period, "")
+                    energy_rate = hour_rate
                     demand_rate = self.demand_charge_map.get(period, "")
-                    seen_periods.add(period)
+                    seen_periods[period] = hour_rate
                 else:
-                    energy_rate = ""
+                    # repeat the energy rate only where it changes within the period
+                    energy_rate = hour_rate if hour_rate != seen_periods[period] else ""
                     demand_rate = ""
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
-- 
2.43.0


From a8059bd5b320ddbd8118df8add7161842f7c6ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 15/33] fix: start every simulation with all heaters off so
 that repeated runs agree

---
 src/ecoengine/interfaces/Simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..d7a4066 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -76,6 +76,11 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             percent_useable = 1.0,
         )
 
+    # Every run starts from the same state: all heaters off
+    for wh in [*dhw_system.water_heaters, getattr(dhw_system, "tm_water_heater", None)]:
+        if wh is not None:
+            wh.turn_off()
+
     sim_run.supply_temp_f = dhw_system.supply_temp_f
     num_steps = duration_min // timestep_min
     for i in range(num_steps):
-- 
2.43.0


From af372604009d121b2ee2a158aba8f4d80aa61d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 16/33] fix: do not count every timestep of a tankless system
 as an outage

---
 src/ecoengine/interfaces/Simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index d7a4066..7666482 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -103,7 +103,8 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             tm_heater_input_kw    = step.get("tm_heater_input_kw"),
         )
 
-        if step["usable_volume_supplyT_gal"] <= 0.0:
+        # A tankless system (no storage tank) meets demand directly
+        if dhw_system.storage_tank is not None and step["usable_volume_supplyT_gal"] <= 0.0:
             sim_run.record_outage(timestep_min)
 
         # Check outlet-deficit stop condition. For systems where the TM/swing
-- 
2.43.0


From a7e28c6d9a7044146e0214f89f46f80bcd23f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:02 +0000
Subject: [PATCH 17/33] fix: size instantaneous water heaters for the hourly
 peak rate, not sixty times it

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From f2ece0200ee3232418eec4bada4133436c45b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:17 +0000
Subject: [PATCH 18/33] fix: remove leftover debug print from every parallel
 loop timestep

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From afeeccb678683282714d16578f12a8fb60b5cab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:52 +0000
Subject: [PATCH 19/33] fix: report the outdoor air temperature, not the tank
 top, in multi-pass RTP steps

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From ce44dce916adaa0f985f20c7b4ad71c914854b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:56 +0000
Subject: [PATCH 20/33] fix: restore the annual load shape of the building when
 sizing fails

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 8cc127ffdfabb3e31da5b82060f9ba87b8733ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:00 +0000
Subject: [PATCH 21/33] fix: size the swing ER element of an annual building on
 its daily load shape

---
 .../dhwsystems/recirc_systems/SwingERTrdOffSystem.py     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..1251cae 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -330,6 +330,15 @@ class SwingERTrdOffSystem(SwingSystem):
         ----------
         building : Building
         """
+        if building.is_annual_load_shape():
+            # Sizing is always performed on the 24-hour daily load shape.
+            building.set_to_daily_load_shape()
+            try:
+                self._size_er_element(building)
+            finally:
+                building.set_to_annual_load_shape()
+            return
+
         inlet_t_f = self._require_design_inlet_temp(building)
 
         # Primary HPWH capacity at design conditions.
-- 
2.43.0


From 2f5c4453703c280b86229f788d68291e1452354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 22/33] fix: size instantaneous water heaters of an annual
 building on its daily load shape

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 4d15890..d2b27f2 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -77,6 +77,15 @@ class InstantWHSystem(DHWSystem):
         **kwargs
             Accepted but ignored (load-shift params, strat_slope, etc.).
         """
+        if building.is_annual_load_shape():
+            # Sizing is always performed on the 24-hour daily load shape.
+            building.set_to_daily_load_shape()
+            try:
+                self.size(building, **kwargs)
+            finally:
+                building.set_to_annual_load_shape()
+            return
+
         design_inlet_temp_f = self._require_design_inlet_temp(building)
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
-- 
2.43.0


From 18fe7ec7e21d4c3537da4333d64b57b375221722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:07 +0000
Subject: [PATCH 23/33] fix: restore building and system when an ER trade-off
 point cannot be sized

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 1251cae..2fc25a8 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -595,10 +595,16 @@ class SwingERTrdOffSystem(SwingSystem):
                 self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
                 self._er_capacity_kbtuh            = None
                 self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+                try:
+                    self._size_er_element(building)
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+                finally:
+                    # Restore mutated state
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal
+                    self.er_safety_factor              = original_er_safety
+                    self._minimum_tm_capacity_kbtuh    = original_total_tm
+                    self._er_capacity_kbtuh            = original_er_kbtuh
 
             er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
             fract_covered.append(i)
@@ -607,11 +613,6 @@ class SwingERTrdOffSystem(SwingSystem):
             if not er_needed:
                 break  # no ER at this fraction; lower fractions won't need it either
 
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
-
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
         er_cap_kw.reverse()
-- 
2.43.0


From c54909beff84798820fc18f6f280d01856493362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 24/33] fix: base the load-shift sizing curve of swing systems
 on the current mix fraction

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 3736748..3ae71ff 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -597,6 +597,9 @@ class DHWSystem:
             # Pre-compute quantities that don't vary with fract_total_vol.
             cap_normal     = self._calc_required_capacity(building)
             run_vol_normal = self._calc_running_volume_supplyT_gal(building, cap_normal)
+            # The capacity of a swing system depends on the mix fraction that the
+            # running volume calculation has just determined.
+            cap_normal     = self._calc_required_capacity(building)
             strat_normal   = self._calc_stratification_factor(
                 control_map, _strat_slope, design_inlet
             )
-- 
2.43.0


From 4600c2a8759081539772f3ac7a122534d137b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 25/33] fix: run the multi-pass RTP capacity trial of an annual
 building on its daily load shape

---
 .../dhwsystems/rtp_systems/MultiPassRTPSystem.py    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 5c46c07..b2d1ce2 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -115,6 +115,19 @@ class MultiPassRTPSystem(RTPSystem):
                         f"percent_useable={percent_useable:.3f})."
                     )
 
+        if building.is_annual_load_shape():
+            # Sizing is always performed on the 24-hour daily load shape.
+            building.set_to_daily_load_shape()
+            try:
+                return cls.from_size(
+                    building, supply_temp_f, storage_temp_f, return_temp_f,
+                    return_flow_gpm, max_daily_run_hr, defrost_factor,
+                    control_schedule, control_map, strat_slope, percent_useable,
+                    capacity_boost_trial_days, capacity_boost_iterations,
+                )
+            finally:
+                building.set_to_annual_load_shape()
+
         system = cls(
             water_heaters=[],
             storage_tank=None,
-- 
2.43.0


From 204857991e8b20b69f6e7aeb505ba967d01cb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 26/33] fix: reset the swing mix fraction when the day has no
 peak

Without a peak the fraction of an earlier sizing stayed in place, so the
load-shift sizing curve of a flat day depended on what was sized before.
---
 src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..575ca77 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -452,6 +452,7 @@ class SwingSystem(RecircSystem):
 
         peak_indices = _get_peak_indices(hourly_diff)
         if not peak_indices:
+            self._eff_mix_fraction = 1.0
             return 0.0
 
         n_real_peaks = len(peak_indices)
-- 
2.43.0


From b5cfee1498c7186ae47c7376be18f710f4c9c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:17 +0000
Subject: [PATCH 27/33] fix: multi-pass mixing valve with a tank no warmer than
 supply temperature

Below supply temperature the energy-equivalent draw grew without bound and
divided by zero once the tank was at supply or inlet temperature, so simulating
an undersized multi-pass plant crashed instead of reporting the outage. The
valve is fully open there: the whole demand and return flow pass through the
tank (the limit of the tempered case as storage approaches supply).
---
 src/ecoengine/objects/dhwsystems/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index a47a94e..ae19459 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -3,6 +3,16 @@ from ecoengine.constants.constants import _RHO_CP
 
 def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, cold_temp_f : float, supply_temp_f : float, return_temp_f : float, storage_temp_f : float) -> dict:
     # For minute intervals, storage_temp_f is whatever temperature is at the top of the storage tank, set point storage temperature or not
+    if storage_temp_f <= supply_temp_f:
+        # Too cool to be tempered: the valve is fully open and all flow passes through the tank
+        storage_draw_gal = load_supplyT_gal + flow_returnT_gal
+        inlet_temp_f = cold_temp_f
+        if storage_draw_gal > 0:
+            inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (flow_returnT_gal * return_temp_f)) / storage_draw_gal
+        return {
+            "storage_draw_gal" : storage_draw_gal,
+            "inlet_temp_f" : inlet_temp_f
+        }
     recirc_loss_btu = flow_returnT_gal * _RHO_CP * (supply_temp_f - return_temp_f)
     critical_flow_gal = recirc_loss_btu / (_RHO_CP * (storage_temp_f - supply_temp_f))
 
-- 
2.43.0


From a5518b97807de0f496e51f7472dcddbbca791cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:34 +0000
Subject: [PATCH 28/33] fix: multi-pass mixing valve divides by zero when
 nothing is drawn

A step without demand on a loop without flow or loss draws nothing from the tank;
the blended make-up temperature was then computed as 0/0.
---
 src/ecoengine/objects/dhwsystems/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/utils.py b/src/ecoengine/objects/dhwsystems/utils.py
index ae19459..4d39347 100644
--- a/src/ecoengine/objects/dhwsystems/utils.py
+++ b/src/ecoengine/objects/dhwsystems/utils.py
@@ -23,7 +23,9 @@ def mixing_valve_behavior(load_supplyT_gal : float, flow_returnT_gal : float, co
     else:
         storage_draw_gal = (load_supplyT_gal + flow_returnT_gal) * ((supply_temp_f - return_temp_f) / (storage_temp_f - return_temp_f))
         recirc_to_tank_gal = storage_draw_gal - load_supplyT_gal
-        inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
+        inlet_temp_f = cold_temp_f
+        if storage_draw_gal > 0:
+            inlet_temp_f = ((load_supplyT_gal * cold_temp_f) + (recirc_to_tank_gal * return_temp_f)) / storage_draw_gal
     return {
         "storage_draw_gal" : storage_draw_gal,
         "inlet_temp_f" : inlet_temp_f
-- 
2.43.0


From fa48cbb7d9b3234c175057fef4bffff0675677f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:27 +0000
Subject: [PATCH 29/33] fix: compute sizing curves of swing ER systems with the
 TM element the plant was sized with

---
 .../dhwsystems/recirc_systems/SwingERTrdOffSystem.py     | 9 +++++++++
 .../objects/dhwsystems/recirc_systems/SwingSystem.py     | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2fc25a8..e638b99 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -294,6 +294,15 @@ class SwingERTrdOffSystem(SwingSystem):
         )
         self._size_er_element(building)
 
+    def _size_tm_system(self, building: Building | None = None) -> None:
+        super()._size_tm_system(building)
+        # The TM element has been re-sized; any earlier ER addition is gone.
+        self._er_capacity_kbtuh = None
+
+    def _sizing_tm_capacity_kbtuh(self) -> float:
+        # The primary plant is sized with the base TM element, before the ER addition.
+        return self._minimum_tm_capacity_kbtuh - (self._er_capacity_kbtuh or 0.0)
+
     def _size_er_element(self, building: Building) -> None:
         """
         Determine additional ER capacity for the swing tank TM element by
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 575ca77..875cb92 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -752,6 +752,10 @@ class SwingSystem(RecircSystem):
 
         return swing_temps, tm_run, hw_from_primary
 
+    def _sizing_tm_capacity_kbtuh(self) -> float:
+        """TM element capacity [kBTU/hr] the primary plant is sized with."""
+        return self._minimum_tm_capacity_kbtuh
+
     def _run_one_swing_step(
         self,
         swingheating: bool,
@@ -799,7 +803,7 @@ class SwingSystem(RecircSystem):
         t_new -= recirc_btuhr / 60.0 / (_RHO_CP * tm_vol)
 
         # TM element heat rate [°F/min]
-        element_dT = (self._minimum_tm_capacity_kbtuh * 1000.0) / 60.0 / (_RHO_CP * tm_vol)
+        element_dT = (self._sizing_tm_capacity_kbtuh() * 1000.0) / 60.0 / (_RHO_CP * tm_vol)
 
         time_running = 0.0
         if swingheating:
-- 
2.43.0


From 91b335cd864b0b99743450e217953cf288ffc8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:40 +0000
Subject: [PATCH 30/33] fix: restore the exact daily use of the building after
 single-pass RTP load-shift sizing

---
 .../dhwsystems/rtp_systems/SinglePassRTPSystem.py      | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..0f0c357 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
-        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
+        building.daily_dhw_use_supplyT_gal = original_daily_gal + recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
-        building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
+        original_daily_gal = building.daily_dhw_use_supplyT_gal
+        building.daily_dhw_use_supplyT_gal = original_daily_gal + recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From cb5ea57fbd29fc758c0620a5b6f0f35987f77b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:43 +0000
Subject: [PATCH 31/33] fix: utility rates at hour boundaries used the previous
 hour for some timesteps (e.g. 29 or 58 min)

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index a8c6433..53afeb3 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -575,7 +575,7 @@ class UtilityCostTracker:
         -------
         float
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = math.floor(step * timestep_min / 60.0)
         if len(self.energy_charge_by_hour) == 8760:
             return self.energy_charge_by_hour[hour_of_year]
         period = self.demand_period_chart[hour_of_year]
@@ -594,7 +594,7 @@ class UtilityCostTracker:
         -------
         int
         """
-        hour_of_year = math.floor(step / (60.0 / timestep_min))
+        hour_of_year = math.floor(step * timestep_min / 60.0)
         return self.demand_period_chart[hour_of_year]
 
     def get_demand_charge_for_period(self, period_key: int, max_kw: float) -> float:
-- 
2.43.0


From aa7ba5d3483a8df59f420aa16c863315310c8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:30 +0000
Subject: [PATCH 32/33] fix: attribute monthly energy by the month of each
 timestep

get_monthly_energy_kwh() counted whole steps per day, so timesteps that do
not divide the day (e.g. 50 min) drifted into the wrong months and energy at
the end of the year was dropped.
---
 src/ecoengine/objects/simulation/SimulationRun.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 0e3d079..46de743 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -697,14 +697,7 @@ class SimulationRun:
             return monthly
 
         hours_per_step = self.timestep_min / 60.0
-        steps_per_day  = 24 * 60 // self.timestep_min
-        step = 0
-        for month_idx, days in enumerate(_DAYS_IN_MONTH):
-            n_steps = days * steps_per_day
-            for power_kw in (self.heater_power_in_kw, self.tm_heater_input_kw):
-                monthly[month_idx] += sum(
-                    (power_kw[i] or 0.0) * hours_per_step
-                    for i in range(step, min(step + n_steps, len(power_kw)))
-                )
-            step += n_steps
+        for power_kw in (self.heater_power_in_kw, self.tm_heater_input_kw):
+            for i, kw in enumerate(power_kw):
+                monthly[_step_to_month(i, self.timestep_min)] += (kw or 0.0) * hours_per_step
         return monthly
-- 
2.43.0


From 99fb6fdb1d5aba723009790b0271fc327b4bd696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:58 +0000
Subject: [PATCH 33/33] fix: require tm_capacity_kbtuh for a pre-sized swing
 tank

The swing element is always electric resistance, so a pre-sized swing tank
given only tm_model silently got an element without capacity that never heats.
---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 8235e21..aa2456b 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -1086,6 +1086,11 @@ class EcosizerEngine:
                 max_daily_run_hr=self.max_daily_run_hr,
                 defrost_factor=self.defrost_factor,
             )
+            if self.tm_capacity_kbtuh is None:
+                # the swing element is electric resistance: tm_model gives it no capacity
+                raise ValueError(
+                    f"Schematic '{self.schematic}' requires tm_capacity_kbtuh in pre-sized mode."
+                )
             system.tm_storage_tank = MixedStorageTank(total_volume_gal=self.tm_storage_vol)
             system.tm_water_heater = self._build_tm_water_heater(tm_controls, force_electric_resistance = True)
             return system
-- 
2.43.0

