From 697d5200197f4887a50d1cd87dae4b5d504c093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:09 +0000
Subject: [PATCH 01/38] fix: conduct heat between the snowpack and the topmost
 soil layer

---
 openamundsen/modules/snow/multilayermodel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index 9d04ccf..f4efc05 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -85,6 +85,7 @@ class MultilayerSnowModel(SnowModel):
             model.timestep,
             s.snow.temp,
             s.snow.therm_cond,
+            s.soil.temp,
             s.soil.therm_cond,
             s.surface.heat_flux,
             s.snow.heat_cap,
@@ -448,6 +449,7 @@ def _heat_conduction(
     timestep,
     temp,
     therm_cond_snow,
+    soil_temp,
     therm_cond_soil,
     heat_flux,
     heat_cap,
@@ -479,6 +481,9 @@ def _heat_conduction(
     therm_cond_snow : ndarray(float, ndim=3)
         Snow thermal conductivity (W m-1 K-1).
 
+    soil_temp : ndarray(float, ndim=3)
+        Soil temperature (K).
+
     therm_cond_soil : ndarray(float, ndim=3)
         Soil thermal conductivity (W m-1 K-1).
 
@@ -506,7 +511,7 @@ def _heat_conduction(
                 timestep,
                 temp[:ns, i, j],
                 therm_cond_snow[:ns, i, j],
-                temp[-1, i, j],
+                soil_temp[0, i, j],
                 soil_thickness[0, i, j],
                 therm_cond_soil[0, i, j],
                 heat_flux[i, j],
-- 
2.43.0


From d8c920421df06d5db09e202457e31c44aa56c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:53 +0000
Subject: [PATCH 02/38] fix: divide by the gas constant and temperature in
 dry_air_density

---
 openamundsen/meteo/atmosphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/atmosphere.py b/openamundsen/meteo/atmosphere.py
index 2d76a1a..4caa8c5 100644
--- a/openamundsen/meteo/atmosphere.py
+++ b/openamundsen/meteo/atmosphere.py
@@ -71,7 +71,7 @@ def dry_air_density(temp, pressure):
     density : numeric
         Dry air density (kg m-3).
     """
-    return pressure * (c.GAS_CONSTANT_DRY_AIR * temp)
+    return pressure / (c.GAS_CONSTANT_DRY_AIR * temp)
 
 
 def latent_heat_of_vaporization(temp):
-- 
2.43.0


From 21086b91a8a5c6ec95b2907b63de5972737a1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:53 +0000
Subject: [PATCH 03/38] fix: apply the WMO transfer functions of all documented
 gauges

---
 openamundsen/meteo/precipcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/precipcorr.py b/openamundsen/meteo/precipcorr.py
index 7a83ff5..1c2a738 100644
--- a/openamundsen/meteo/precipcorr.py
+++ b/openamundsen/meteo/precipcorr.py
@@ -180,7 +180,7 @@ def correct_station_precipitation(model):
             elif gauge == "us_unsh":
                 cr[pos_snow] = np.exp(4.61 - 0.16 * wind_speeds_2m[pos_snow] ** 1.28)
                 cr[pos_mixed] = 100.77 - 8.34 * wind_speeds_2m[pos_mixed]
-            if gauge == "hellmann":
+            elif gauge == "hellmann":
                 cr[pos_snow] = (
                     100 + 1.13 * wind_speeds_2m[pos_snow] ** 2 - 19.45 * wind_speeds_2m[pos_snow]
                 )
-- 
2.43.0


From b301ed469a4e16bae1073e80351f7f4a963a78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:21 +0000
Subject: [PATCH 04/38] fix: restrict interpolated humidity to the range of the
 station humidities when extrapolation is disabled

---
 openamundsen/meteo/interpolation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 6cc252e..ad85fb5 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -518,8 +518,9 @@ def interpolate_param(
     # Restrict interpolated values to the range of the point values if extrapolation is disabled in
     # the parameter config
     if not param_config["extrapolate"] and len(data) > 0:
-        min_range = np.nanmin(data)
-        max_range = np.nanmax(data)
+        point_data = rel_hums if param == "rel_hum" else data
+        min_range = np.nanmin(point_data)
+        max_range = np.nanmax(point_data)
 
         if np.isfinite(min_range):
             data_interpol = np.clip(data_interpol, min_range, max_range)
-- 
2.43.0


From acb304ea9e85b6ef2f27cdadc0d2c053f1877b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:57 +0000
Subject: [PATCH 05/38] fix: no elevation trend from stations at equal
 elevations

---
 openamundsen/meteo/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index ad85fb5..97188db 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -70,7 +70,7 @@ def _linear_fit(x, y):
     -------
     slope, intercept : float
     """
-    if len(x) < 2:
+    if len(x) < 2 or np.all(x == x[0]):  # no trend can be determined
         slope = 0
         intercept = 0
     else:
-- 
2.43.0


From 76d1450891916672b505e5d5dba093a83265daa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:49 +0000
Subject: [PATCH 06/38] fix: percolation from the evaporation layer depends on
 its depletion (FAO-56 eq. (79))

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index aeb9bc6..18df8ad 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -480,7 +480,7 @@ class EvapotranspirationModel:
             precip
             - precip_runoff
             + irrigation / wetted_frac
-            - s_et.deep_percolation_evaporation_layer[pos]
+            - s_et.cum_soil_surface_depletion[pos]
         ).clip(min=0)
         s_et.cum_soil_surface_depletion[pos] = (  # eq. (77)
             s_et.cum_soil_surface_depletion[pos]
-- 
2.43.0


From fd6b0e67332e8d0aff1ac130b1f17783e027436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:49 +0000
Subject: [PATCH 07/38] fix: air density for sealed surface evaporation divides
 by the virtual temperature

---
 openamundsen/modules/evapotranspiration/evapotranspiration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/evapotranspiration/evapotranspiration.py b/openamundsen/modules/evapotranspiration/evapotranspiration.py
index 18df8ad..935e70d 100644
--- a/openamundsen/modules/evapotranspiration/evapotranspiration.py
+++ b/openamundsen/modules/evapotranspiration/evapotranspiration.py
@@ -579,7 +579,7 @@ class EvapotranspirationModel:
         ea = s.meteo.vap_press[pos_dry]  # actual vapor pressure (Pa)
 
         Tv = 1.01 * s.meteo.top_canopy_temp[pos_dry]  # virtual temperature (K)
-        rhoa = s.meteo.atmos_press[pos_dry] / c.GAS_CONSTANT_DRY_AIR * Tv  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
+        rhoa = s.meteo.atmos_press[pos_dry] / (c.GAS_CONSTANT_DRY_AIR * Tv)  # air density at constant pressure (kg m-3) # fmt: skip # noqa: E501
         cp = (  # specific heat at constant pressure (J kg-1 K-1) (p. 26)
             gamma * 0.622 * c.LATENT_HEAT_OF_VAPORIZATION / s.meteo.atmos_press[pos_dry]
         )
-- 
2.43.0


From 5c8bf798f7aae05d81b3367d3d505de65abf1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:49 +0000
Subject: [PATCH 08/38] fix: leaf area index for land cover classes with
 several growth cycles

---
 openamundsen/landcover.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/landcover.py b/openamundsen/landcover.py
index 98c9676..30ac286 100644
--- a/openamundsen/landcover.py
+++ b/openamundsen/landcover.py
@@ -68,8 +68,8 @@ class LandCover:
 
             lcc_lai = modules.evapotranspiration.crop_coefficient(
                 growing_period_day,
-                0,  # no initial period with constant LAI
-                length_ini + length_dev,
+                np.zeros_like(length_ini),  # no initial period with constant LAI
+                np.add(length_ini, length_dev),
                 length_mid,
                 length_late,
                 min_lai,
-- 
2.43.0


From daccb2be06d86b0b0090e2479d9c0d0dcd2fb00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:35 +0000
Subject: [PATCH 09/38] fix: inside-canopy temperature when the mean
 temperature is missing for some forest pixels

---
 openamundsen/modules/canopy/canopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index 49fd295..fd74e93 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -91,7 +91,7 @@ class CanopyModel:
         pos_finite_temp = pos & np.isfinite(mean_24h_temp)
         delta_t = ((mean_24h_temp[pos_finite_temp] - c.T0) / 3).clip(-2, 2)  # eq. (5)
         s.meteo.temp[pos_finite_temp] -= (  # eq. (4)
-            canopy_frac
+            canopy_frac[pos_finite_temp[pos]]
             * (
                 s.meteo.temp[pos_finite_temp]
                 - (
-- 
2.43.0


From 4fb54d54f6ab19fffc78e9eb3a2735af6923ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:35 +0000
Subject: [PATCH 10/38] fix: canopy interception storage balance with missing
 meteorology and decreasing capacity

---
 openamundsen/modules/canopy/canopy.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openamundsen/modules/canopy/canopy.py b/openamundsen/modules/canopy/canopy.py
index fd74e93..ecb5341 100644
--- a/openamundsen/modules/canopy/canopy.py
+++ b/openamundsen/modules/canopy/canopy.py
@@ -187,12 +187,15 @@ class CanopyModel:
         max_interception_storage = (
             model.config.canopy.max_interception_storage_coefficient * s.land_cover.lai_eff[pos]
         )
-        new_canopy_intercepted_load = s.snow.canopy_intercepted_load[pos] + 0.7 * (
-            max_interception_storage - s.snow.canopy_intercepted_load[pos]
-        ) * (1 - np.exp(-s.meteo.snowfall[pos] / max_interception_storage))
+        snowfall = np.nan_to_num(s.meteo.snowfall[pos])
         s.snow.canopy_intercepted_snowfall[pos] = (
-            new_canopy_intercepted_load - s.snow.canopy_intercepted_load[pos]
+            0.7
+            * (max_interception_storage - s.snow.canopy_intercepted_load[pos])
+            * (1 - np.exp(-snowfall / max_interception_storage))
         ).clip(min=0)
+        new_canopy_intercepted_load = (
+            s.snow.canopy_intercepted_load[pos] + s.snow.canopy_intercepted_snowfall[pos]
+        )
         s.snow.canopy_intercepted_load[pos] = new_canopy_intercepted_load
 
         # Canopy exposure coefficient (eq. (23))
@@ -221,7 +224,7 @@ class CanopyModel:
         s.snow.canopy_melt[pos] = np.minimum(
             (
                 model.config.canopy.degree_day_factor
-                * (s.meteo.temp[pos] - c.T0).clip(min=0)
+                * np.nan_to_num(s.meteo.temp[pos] - c.T0).clip(min=0)
                 * model.timestep
                 / (c.SECONDS_PER_HOUR * c.HOURS_PER_DAY)
             ),
-- 
2.43.0


From af3bfc37ace1f150f53e885c08a0db8019eb2901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:27 +0000
Subject: [PATCH 11/38] fix: turbulent flux update of the multilayer surface
 energy balance

The turbulent fluxes are oriented towards the surface, hence decrease with
increasing surface temperature: the sensible heat flux was updated with the
wrong sign and the change of the moisture flux was overwritten with the flux
for the old surface temperature, so that the reported fluxes (and the
sublimated mass) did not balance the energy used for the temperature change.
---
 openamundsen/surface.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 952212e..f35d0d2 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -192,14 +192,15 @@ def multilayer_energy_balance(model):
             surf_heat_flux_change[partial_melties_roi] = 0.0
             sens_heat_flux_change[partial_melties_roi] = 0.0
 
-    # Update surface temperature and fluxes
+    # Update surface temperature and fluxes (turbulent fluxes are oriented towards the surface, i.e.,
+    # decrease with increasing surface temperature)
     s.surface.temp[roi] += surf_temp_change
-    s.surface.moisture_flux[roi] += surf_moisture_flux_change
+    s.surface.moisture_flux[roi] -= surf_moisture_flux_change
     s.surface.heat_flux[roi] += surf_heat_flux_change
-    s.surface.sens_heat_flux[roi] += sens_heat_flux_change
+    s.surface.sens_heat_flux[roi] -= sens_heat_flux_change
     calc_radiation_balance(model, roi)
     calc_latent_heat(model, roi)
-    calc_turbulent_fluxes(model, roi, sensible=False)
+    s.surface.lat_heat_flux[roi] = s.surface.lat_heat[roi] * s.surface.moisture_flux[roi]
 
 
 def cryo_layer_energy_balance(model):
-- 
2.43.0


From a3f0687aafc300e731a953b6ec48c6a4a800cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:29 +0000
Subject: [PATCH 12/38] fix: latent heat of sublimation over all snow covered
 surfaces

In the cryo layer model only the new snow layer was considered.
---
 openamundsen/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index f35d0d2..83067e9 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -590,7 +590,7 @@ def calc_latent_heat(model, pos):
     s = model.state
     lat_heat_vap = meteo.latent_heat_of_vaporization(s.meteo.temp[pos])
     s.surface.lat_heat[pos] = np.where(
-        (s.snow.ice_content[0, pos] > 0) | (s.surface.temp[pos] < constants.T0),
+        (s.snow.ice_content[:, pos] > 0).any(axis=0) | (s.surface.temp[pos] < constants.T0),
         lat_heat_vap + constants.LATENT_HEAT_OF_FUSION,
         lat_heat_vap,
     )
-- 
2.43.0


From 36f93b7ea00d56bd107e872bf4b921ef6a82cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:29 +0000
Subject: [PATCH 13/38] fix: snow surface temperature iteration with positive
 energy balance at the melting point

The secant iteration could converge to a negative temperature or diverge.
---
 openamundsen/surface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 83067e9..86132b7 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -873,7 +873,11 @@ def iterate_surface_temperature(model, frosties):
     elif method == "secant":
         tol = 1e-2
 
+        # The energy balance remainder decreases with increasing surface temperature: where it is not
+        # negative at the melting point no iteration is necessary (and would possibly diverge), since
+        # the surface temperature cannot rise further
         iteraties = frosties.copy()
+        iteraties[frosties] = energy_balance_remainder(model, frosties, constants.T0) < 0
         iteraties_idxs = np.where(iteraties.flat)[0]
         x0 = np.full(len(iteraties_idxs), constants.T0 - 10.0)
         x1 = np.full(len(iteraties_idxs), constants.T0)
-- 
2.43.0


From f52326bc2b648a5b1870e361f4f9efc084951482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 14/38] fix: apparent heat capacity of freezing soil uses the
 temperature in degrees Celsius

---
 openamundsen/modules/soil/soil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index f45aeef..0ca0f9a 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -171,7 +171,7 @@ def _soil_properties(
                     + c.ICE_DENSITY * c.SPEC_HEAT_CAP_ICE * vol_frozen_moisture_content
                     + c.WATER_DENSITY
                     * (
-                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * temp[k, i, j]
+                        (c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * (temp[k, i, j] - c.T0)
                         + c.LATENT_HEAT_OF_FUSION
                     )
                     * dTheta_u_by_dT
-- 
2.43.0


From 60842f71796b1bf9e5de01abd902eb3434b69a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 15/38] fix: no unfrozen and frozen moisture in dry soil layers

---
 openamundsen/modules/soil/soil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openamundsen/modules/soil/soil.py b/openamundsen/modules/soil/soil.py
index 0ca0f9a..43b676d 100644
--- a/openamundsen/modules/soil/soil.py
+++ b/openamundsen/modules/soil/soil.py
@@ -205,6 +205,8 @@ def _soil_properties(
                     i, j
                 ]
             else:  # vol_moisture_content[k, i, j] == 0
+                frac_unfrozen_moisture_content[k, i, j] = 0.0
+                frac_frozen_moisture_content[k, i, j] = 0.0
                 heat_cap[k, i, j] = vol_heat_cap_dry[i, j] * thickness[k, i, j]
                 therm_cond[k, i, j] = therm_cond_dry[i, j]
 
-- 
2.43.0


From a750aa5bdde3a98ab7ea1e968ffd214414333629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 16/38] fix: restore the number of numba threads if processing
 a time step fails

---
 openamundsen/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openamundsen/model.py b/openamundsen/model.py
index 1fe1f64..a2eb841 100644
--- a/openamundsen/model.py
+++ b/openamundsen/model.py
@@ -252,6 +252,16 @@ class OpenAmundsen:
             prev_num_threads = numba.get_num_threads()
             numba.set_num_threads(self._numba_threads)
 
+        try:
+            self._process_next_time_step()
+        finally:
+            if self._numba_threads is not None:
+                numba.set_num_threads(prev_num_threads)
+
+    def _process_next_time_step(self):
+        """
+        Increment the date counter and process the respective time step.
+        """
         if self.date_idx is None:
             self.date_idx = 0
         elif self.date_idx == len(self.dates) - 1:
@@ -281,9 +291,6 @@ class OpenAmundsen:
             logger.debug("Updating live view window")
             self.liveview.update(self.date)
 
-        if self._numba_threads is not None:
-            numba.set_num_threads(prev_num_threads)
-
     def global_mask(self, mask, global_mask=None, global_idxs=None):
         if global_idxs is None:
             if global_mask is None:
-- 
2.43.0


From 89b13365d642348d23eb8939dcde83348e1f6ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 17/38] fix: retain the glacier ids

---
 openamundsen/modules/glacier/glaciermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e83ffe5..e274eae 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -28,7 +28,7 @@ class GlacierModel:
         self.model = model
         s = model.state
         sg = s.add_category("glaciers")
-        sg.add_variable("glacier", long_name="Glacier ID", dtype=int)
+        sg.add_variable("glacier", long_name="Glacier ID", dtype=int, retain=True)
         self.mass_balance_start_we = None
 
     def initialize(self):
-- 
2.43.0


From 305e5452e4e237afa97d20d245f7d112e0d06303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 18/38] fix: glacier geometry update leaves pixels without
 redistributed ice mass untouched

---
 openamundsen/modules/glacier/glaciermodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index e274eae..ea4d9e9 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -66,6 +66,7 @@ class GlacierModel:
         mb = ice_mb + firn_mb
         old_ice_thickness = self.mass_balance_start_we[CryoLayerID.ICE, :] / c.ICE_DENSITY
         new_ice_thickness = s.snow.thickness[CryoLayerID.ICE, :].copy()
+        updated = np.zeros(model.grid.shape, dtype=bool)
 
         for gid in self.glacier_ids:
             gpos = (s.glaciers.glacier == gid) & (old_ice_thickness > 0.0)
@@ -124,9 +125,11 @@ class GlacierModel:
             new_ice_thickness[update_pos] = (
                 old_ice_thickness[update_pos] + (mass_change - firn_mb[update_pos]) / c.ICE_DENSITY
             ).clip(min=0.0)
+            updated |= update_pos
 
-        s.snow.thickness[CryoLayerID.ICE, :] = new_ice_thickness
-        s.snow.ice_content[CryoLayerID.ICE, :] = new_ice_thickness * c.ICE_DENSITY
+        # Leave the pixels for which the ice mass is not redistributed untouched
+        s.snow.thickness[CryoLayerID.ICE, updated] = new_ice_thickness[updated]
+        s.snow.ice_content[CryoLayerID.ICE, updated] = new_ice_thickness[updated] * c.ICE_DENSITY
 
         model.snow.update_layers()
 
-- 
2.43.0


From 124da853cae46c1828c28e4216d842d28c17afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:13 +0000
Subject: [PATCH 19/38] fix: ice mass change of glaciers with constant surface
 elevation

---
 openamundsen/modules/glacier/glaciermodel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openamundsen/modules/glacier/glaciermodel.py b/openamundsen/modules/glacier/glaciermodel.py
index ea4d9e9..1e7516f 100644
--- a/openamundsen/modules/glacier/glaciermodel.py
+++ b/openamundsen/modules/glacier/glaciermodel.py
@@ -166,9 +166,10 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
        Hydrology and Earth System Sciences, 14(5), 815–829.
        https://doi.org/10.5194/hess-14-815-2010
     """
-    if total_mb < 0:
-        min_elev = elevs.min()
-        max_elev = elevs.max()
+    min_elev = elevs.min()
+    max_elev = elevs.max()
+
+    if total_mb < 0 and max_elev > min_elev:
         normalized_elevs = (max_elev - elevs) / (max_elev - min_elev)
         delta_h = _delta_h(normalized_elevs, glacier_area)
         fs = total_mb / delta_h.sum()
@@ -186,7 +187,8 @@ def _ice_mass_change(elevs, total_mb, glacier_area, max_allowed_change):
                     elevs[~clippies],
                 )
     else:
-        # If the mass balance is positive, distribute the mass gain equally over all glacier pixels
+        # If the mass balance is positive (or all glacier pixels have the same elevation), distribute
+        # the mass change equally over all glacier pixels
         mass_change = total_mb / elevs.size
 
     return mass_change
@@ -208,6 +210,9 @@ def _mass_loss_surplus_distribution(mass_loss, elevs):
     max_elev = elevs.max()
     min_mass = 0.0
 
+    if max_elev == min_elev:
+        return np.full(elevs.shape, mass_loss / elevs.size)
+
     x0 = 0.0
     x1 = mass_loss / elevs.size * 1.5
     y0 = np.sum(_scale_mass_loss_surplus(mass_loss, elevs, min_elev, max_elev, min_mass, x0))
-- 
2.43.0


From b32944bd7526b712026b6290d95c8481857b2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 20/38] fix: reset of non-retained boolean state variables

---
 openamundsen/statevars.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/statevars.py b/openamundsen/statevars.py
index 24132a8..f9bc53d 100644
--- a/openamundsen/statevars.py
+++ b/openamundsen/statevars.py
@@ -12,6 +12,7 @@ _DTYPE_INIT_VALS = {
 }
 _DTYPE_INIT_VALS[np.dtype("float64")] = _DTYPE_INIT_VALS[float]
 _DTYPE_INIT_VALS[np.dtype("int64")] = _DTYPE_INIT_VALS[int]
+_DTYPE_INIT_VALS[np.dtype("bool")] = _DTYPE_INIT_VALS[bool]
 
 
 class StateVariableManager:
-- 
2.43.0


From 829895677fa66b7e6599c8f4a03c07037e8aed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 21/38] fix: residual snow thinner than the numerical limit
 below vanished layers turned the snowpack into nan

---
 openamundsen/modules/snow/multilayermodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/snow/multilayermodel.py b/openamundsen/modules/snow/multilayermodel.py
index f4efc05..c076db0 100644
--- a/openamundsen/modules/snow/multilayermodel.py
+++ b/openamundsen/modules/snow/multilayermodel.py
@@ -616,7 +616,7 @@ def _update_layers(
             k_new = 0
 
             # TODO optimize this loop
-            for k_old in range(num_layers_prev[i, j]):
+            for k_old in range(num_layers_prev[i, j] if ns > 0 else 0):
                 while True:  # TODO replace with normal loop
                     weight = min(new_thickness / thickness_prev[k_old, i, j], 1.0)
 
-- 
2.43.0


From ec2e99a64fe633e4dfbfe79e09543dbb65ea1639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 22/38] fix: radiation stations outside the region of interest
 turned the irradiance of all pixels into nan

---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index edbb57a..3dd0773 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -181,9 +181,9 @@ def shortwave_irradiance(model):
             method = "clear_sky_fraction"
 
     if method == "clear_sky_fraction":
-        # Select stations within the grid extent and with shortwave radiation measurements for the
-        # current time step
-        ds_rad = meteo_ds.sel(station=model.meteo.within_grid_extent).dropna(
+        # Select stations within the ROI (clear-sky irradiance is available only there) and with
+        # shortwave radiation measurements for the current time step
+        ds_rad = meteo_ds.sel(station=model.meteo.within_roi).dropna(
             "station",
             subset=["sw_in"],
         )
-- 
2.43.0


From c3efdec700646ace992ed578a1ec47ae894db058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 23/38] fix: normalization of constant arrays (liston wind
 interpolation over uniform terrain)

---
 openamundsen/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openamundsen/util.py b/openamundsen/util.py
index 0a40726..84d7e4e 100644
--- a/openamundsen/util.py
+++ b/openamundsen/util.py
@@ -380,5 +380,9 @@ def normalize_array(data, min, max):  # noqa: A002
     data = np.asarray(data)
     data_min = np.nanmin(data)
     data_max = np.nanmax(data)
+
+    if data_max == data_min:  # no range to scale, use the center of the target range
+        return np.where(np.isnan(data), np.nan, (min + max) / 2)
+
     scale_factor = (max - min) / (data_max - data_min)
     return min + scale_factor * (data - data_min)
-- 
2.43.0


From 3a623d64ebc8b1337a66bda4a2e69f4522d4a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:23 +0000
Subject: [PATCH 24/38] fix: wind speed of flat pixels in the liston wind
 interpolation

---
 openamundsen/meteo/interpolation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openamundsen/meteo/interpolation.py b/openamundsen/meteo/interpolation.py
index 97188db..29ed7fd 100644
--- a/openamundsen/meteo/interpolation.py
+++ b/openamundsen/meteo/interpolation.py
@@ -574,6 +574,7 @@ def _liston_wind_correction(
     )
     wind_speed_roi, wind_dir_roi = meteo.wind_from_uv(wind_u_roi, wind_v_roi)
     wind_dir_minus_aspect = np.deg2rad(wind_dir_roi - target_aspects)
+    wind_dir_minus_aspect[target_slopes == 0] = 0.0  # aspect is undefined for flat pixels
     wind_slope = (  # slope in the direction of the wind (eq. (15))
         np.deg2rad(target_slopes) * np.cos(wind_dir_minus_aspect)
     )
-- 
2.43.0


From 1b3b5295db05c60d49e5d7f30459cad9805b538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:46 +0000
Subject: [PATCH 25/38] fix: data race in the topographic openness calculation

---
 openamundsen/terrain.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/terrain.py b/openamundsen/terrain.py
index 0a215b1..0d44fb1 100644
--- a/openamundsen/terrain.py
+++ b/openamundsen/terrain.py
@@ -1,7 +1,7 @@
 import logging
 
 import numpy as np
-from numba import njit, prange
+from numba import njit
 
 from openamundsen.modules.radiation import shadows
 
@@ -333,7 +333,7 @@ def openness(dem, res, L, negative=False, mean=True):
     return opn
 
 
-@njit(cache=True, parallel=True)
+@njit(cache=True)
 def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     Calculate topographic openness for a DEM and a single compass direction.
@@ -360,7 +360,7 @@ def _openness_dir(dem, res, L, dir):  # noqa: A002
     """
     opn_dir = np.full(dem.shape, np.inf)
 
-    for i in prange(int(np.ceil(L / res))):
+    for i in range(int(np.ceil(L / res))):
         dist = res * (i + 1) * [1, np.sqrt(2)][dir % 2]
         Z_shift = _shift_arr_retain(dem, dir, i)
         angle = np.pi / 2 - np.arctan2(Z_shift - dem, dist)
-- 
2.43.0


From 0351763cbc58d44ecea1e7be7524262422c39ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:15 +0000
Subject: [PATCH 26/38] fix: limit the relative optical air mass for low sun

---
 openamundsen/modules/radiation/clearsky.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index a34a852..fb679d5 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -106,8 +106,8 @@ def _clear_sky_shortwave_irradiance(
     aoi = aoi.clip(min=0)  # shadows due to steepness of the slope (sun "behind")
 
     # Relative optical air mass for standard pressure (Iqbal 1983)
-    rel_opt_air_mass = 1.0 / (
-        np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253)
+    rel_opt_air_mass = (
+        1.0 / (np.cos(zenith_angle) + 0.15 * (93.885 - np.rad2deg(zenith_angle)) ** (-1.253))
     ).clip(max=14.1952)  # function is only valid for zenith angles up to 87°
 
     # Relative optical air mass pressure corrected
-- 
2.43.0


From e396286a240dbc409c28ff79cd7cde27022b72ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:27 +0000
Subject: [PATCH 27/38] fix: polynomial of the aerosol forward scattering ratio

---
 openamundsen/modules/radiation/clearsky.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index fb679d5..4999222 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -153,7 +153,7 @@ def _clear_sky_shortwave_irradiance(
     )
 
     # Aerosol-scattered diffuse irradiance
-    scattering_ratio = -0.2562 * zenith_angle**2 * 0.1409 * zenith_angle + 0.9067
+    scattering_ratio = -0.2562 * zenith_angle**2 + 0.1409 * zenith_angle + 0.9067
     trans_aerosol_ratio = ts["trans_aerosols"] / ts["trans_aerosol_abs"]
     diff_irr_aerosols = (
         0.79
-- 
2.43.0


From ae8b0779337fb08b32c4b3eff8a1b5b9d1b181ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:40 +0000
Subject: [PATCH 28/38] fix: exponent of the Rayleigh transmittance

---
 openamundsen/modules/radiation/clearsky.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openamundsen/modules/radiation/clearsky.py b/openamundsen/modules/radiation/clearsky.py
index 4999222..5be2d24 100644
--- a/openamundsen/modules/radiation/clearsky.py
+++ b/openamundsen/modules/radiation/clearsky.py
@@ -258,8 +258,10 @@ def _transmittances(
     rel_opt_air_mass_press_corr = rel_opt_air_mass * atmos_press / c.STANDARD_ATMOSPHERE
 
     # Rayleigh scattering
-    trans_rayleigh = np.exp(-0.0903 * rel_opt_air_mass_press_corr**0.84) * (
-        1 + rel_opt_air_mass_press_corr - rel_opt_air_mass_press_corr**1.01
+    trans_rayleigh = np.exp(
+        -0.0903
+        * rel_opt_air_mass_press_corr**0.84
+        * (1 + rel_opt_air_mass_press_corr - rel_opt_air_mass_press_corr**1.01)
     )
 
     # Transmittance by ozone (constant for the entire area) (eq. (3.13))
-- 
2.43.0


From e8c2fe51ebe1914f0a43955173552738f8a7c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:36 +0000
Subject: [PATCH 29/38] fix: use the configured cloud emissivity and rock
 emission factor

---
 openamundsen/modules/radiation/irradiance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openamundsen/modules/radiation/irradiance.py b/openamundsen/modules/radiation/irradiance.py
index 3dd0773..db02d71 100644
--- a/openamundsen/modules/radiation/irradiance.py
+++ b/openamundsen/modules/radiation/irradiance.py
@@ -289,9 +289,9 @@ def longwave_irradiance(model):
     m = model.state.meteo
     clear_sky_emissivity = meteo.clear_sky_emissivity(m.precipitable_water[roi])
 
-    # TODO these should be parameters
-    cloud_emissivity = 0.976  # emissivity of totally overcast skies (Greuell et al., 1997) # noqa: E501 # fmt: skip
-    rock_emission_factor = 0.01  # (K W-1 m2) temperature of emitting rocks during daytime is assumed to be higher than the air temperature by this factor multiplied by the incoming shortwave radiation (Greuell et al., 1997) # noqa: E501
+    rad_config = model.config.meteo.radiation
+    cloud_emissivity = rad_config.cloud_emissivity
+    rock_emission_factor = rad_config.rock_emission_factor
 
     # Incoming longwave radiation from the clear sky
     lw_in_clearsky = (
-- 
2.43.0


From 28864102d598eee359f404cd4387a9065aa1ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:22 +0000
Subject: [PATCH 30/38] fix: use the configured snow emissivity

---
 openamundsen/surface.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openamundsen/surface.py b/openamundsen/surface.py
index 86132b7..e90dc04 100644
--- a/openamundsen/surface.py
+++ b/openamundsen/surface.py
@@ -510,8 +510,7 @@ def calc_radiation_balance(model, pos):
     """
     s = model.state
 
-    # TODO this should be a parameter
-    snow_emissivity = 0.99
+    snow_emissivity = model.config.meteo.radiation.snow_emissivity
 
     s.meteo.sw_out[pos] = s.surface.albedo[pos] * s.meteo.sw_in[pos]
     s.meteo.lw_out[pos] = snow_emissivity * constants.STEFAN_BOLTZMANN * s.surface.temp[pos] ** 4
-- 
2.43.0


From f3faa65fe35e9b7349df3f2429392fc40536d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:16 +0000
Subject: [PATCH 31/38] fix: write dates of monthly and yearly gridded outputs

For runs not starting at midnight the fields of the start/end of a month or
year were written at other time steps, and aggregation with begin-anchored
frequencies failed.
---
 openamundsen/fileio/griddedoutput.py | 75 +++++++++++++---------------
 1 file changed, 35 insertions(+), 40 deletions(-)

diff --git a/openamundsen/fileio/griddedoutput.py b/openamundsen/fileio/griddedoutput.py
index 532fe45..cfc66bd 100644
--- a/openamundsen/fileio/griddedoutput.py
+++ b/openamundsen/fileio/griddedoutput.py
@@ -705,40 +705,44 @@ def _freq_write_dates(dates, out_freq, agg):
         elif not (out_freq_td.total_seconds() / model_freq_td.total_seconds()).is_integer():
             raise ValueError("Output frequency must be a multiple of the model timestep")
 
-    if agg:
-        if _is_anchored(out_offset):  # e.g. 'ME', 'YE'
-            if model_freq_td.total_seconds() > constants.HOURS_PER_DAY * constants.SECONDS_PER_HOUR:
-                raise NotImplementedError(
-                    "Aggregation of gridded outputs with anchored offsets "
-                    "not supported for timesteps > 1d"
-                )
-
-            period_end_dates = (
-                pd.period_range(
-                    start=dates[0],
-                    end=dates[-1],
-                    freq=out_offset,
-                )
-                .asfreq(model_freq, how="end")
-                .to_timestamp()
+    if _is_anchored(out_offset):  # e.g. 'ME', 'YS'
+        if agg and (
+            model_freq_td.total_seconds() > constants.HOURS_PER_DAY * constants.SECONDS_PER_HOUR
+        ):
+            raise NotImplementedError(
+                "Aggregation of gridded outputs with anchored offsets "
+                "not supported for timesteps > 1d"
             )
 
-            d0 = dates[dates <= period_end_dates[0]][-1]
-            write_dates = period_end_dates + (d0 - period_end_dates[0])
-
-            if period_end_dates[0] - write_dates[0] > pd.Timedelta("24h"):
-                write_dates = write_dates.delete(0)
-
-            # Keep the last output interval only if it is fully covered (e.g., do not write half
-            # months)
-            if len(write_dates) > 0 and write_dates[-1] > dates[-1]:
-                write_dates = write_dates.delete(-1)
+        # Calculate the dates at which new output intervals start
+        end_date = dates[-1] + model_freq_td
+        start_dates = pd.date_range(
+            start=dates[0],
+            end=end_date,
+            freq=out_offset,
+            normalize=True,
+        )
+        is_end_anchored = isinstance(
+            out_offset,
+            (pd.tseries.offsets.YearEnd, pd.tseries.offsets.MonthEnd),
+        )
+        if is_end_anchored:
+            start_dates += pd.Timedelta(days=1)
+
+        if agg or is_end_anchored:
+            # Take the last time step of each interval; keep the last output interval only if it is
+            # fully covered (e.g., do not write half months)
+            start_dates = start_dates[(start_dates > dates[0]) & (start_dates <= end_date)]
+            write_dates = dates[dates.searchsorted(start_dates) - 1].unique()
         else:
-            write_dates = pd.date_range(
-                start=dates[0] + out_freq_td - model_freq_td,
-                end=dates[-1],
-                freq=out_offset,
-            )
+            start_dates = start_dates[start_dates <= dates[-1]]
+            write_dates = dates[dates.searchsorted(start_dates)].unique()
+    elif agg:
+        write_dates = pd.date_range(
+            start=dates[0] + out_freq_td - model_freq_td,
+            end=dates[-1],
+            freq=out_offset,
+        )
     else:
         write_dates = pd.date_range(
             start=dates[0],
@@ -746,15 +750,6 @@ def _freq_write_dates(dates, out_freq, agg):
             freq=out_offset,
         )
 
-        if any(
-            isinstance(out_offset, o)
-            for o in (
-                pd.tseries.offsets.YearEnd,
-                pd.tseries.offsets.MonthEnd,
-            )
-        ) and model_freq_td < pd.Timedelta(days=1):
-            write_dates += pd.Timedelta(days=1) - model_freq_td
-
     return write_dates
 
 
-- 
2.43.0


From 6300ca3a23d239aa7a82603c6542d7f724f17a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 32/38] fix: use a uniform date format in CSV point outputs

---
 openamundsen/fileio/pointoutput.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index fcd44ca..4f471a2 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -437,6 +437,11 @@ class PointOutputManager:
 
                         ds_out = ds_out.drop_vars(var.output_name)
 
+                # Use the same date format for all chunks (by default, pandas drops the time part if
+                # all times of a chunk are midnight)
+                dates = self.model.dates
+                date_format = "%Y-%m-%d" if dates.equals(dates.normalize()) else "%Y-%m-%d %H:%M:%S"
+
                 for point in self.points:
                     filename = self.model.config.results_dir / f"point_{point.name}.csv"
 
@@ -449,8 +454,8 @@ class PointOutputManager:
                     df = ds_out_point.to_dataframe()
 
                     if date == self.write_dates[0]:
-                        df.to_csv(filename)
+                        df.to_csv(filename, date_format=date_format)
                     else:
-                        df.to_csv(filename, mode="a", header=False)
+                        df.to_csv(filename, mode="a", header=False, date_format=date_format)
 
             self.data = None
-- 
2.43.0


From d7e69ec88c4bd06663302953c98f8544bd55c334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 33/38] fix: start point output files with the first chunk of
 the run

---
 openamundsen/fileio/pointoutput.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/pointoutput.py b/openamundsen/fileio/pointoutput.py
index 4f471a2..70f4c1e 100644
--- a/openamundsen/fileio/pointoutput.py
+++ b/openamundsen/fileio/pointoutput.py
@@ -406,10 +406,13 @@ class PointOutputManager:
         if self.format != "memory" and date == ds.indexes["time"][-1]:
             logger.debug("Writing point outputs")
 
+            # (the write dates do not necessarily coincide with model time steps)
+            is_first_chunk = ds.indexes["time"][0] == self.model.dates[0]
+
             if self.format == "netcdf":
                 filename = self.model.config.results_dir / "output_timeseries.nc"
 
-                if date == self.write_dates[0]:
+                if is_first_chunk:
                     ds.to_netcdf(filename, engine=constants.NETCDF_ENGINE)
                 else:
                     with xr.open_dataset(filename) as old_ds:
@@ -453,7 +456,7 @@ class PointOutputManager:
 
                     df = ds_out_point.to_dataframe()
 
-                    if date == self.write_dates[0]:
+                    if is_first_chunk:
                         df.to_csv(filename, date_format=date_format)
                     else:
                         df.to_csv(filename, mode="a", header=False, date_format=date_format)
-- 
2.43.0


From 4ca4850bb6b1098a62fb0bc644cbd8f78e1145dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 34/38] fix: remove all extra bins when aggregating station
 data

---
 openamundsen/fileio/meteo.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index e9558ee..4be31cb 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -401,10 +401,8 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         if "wind_dir" in df.columns:
             df_res["wind_dir"] = _aggregate_wind_dir(df, freq, resample_kwargs)
 
-        # We might end up with an extra bin after resampling; remove it here
-        df_res = df_res.loc[start_date:end_date]
-        if df_res.index[0] < df.index[0]:
-            df_res = df_res.iloc[1:]
+        # We might end up with extra bins after resampling; remove them here
+        df_res = df_res.loc[max(start_date, df.index[0]) : min(end_date, df.index[-1])]
     else:
         # Take the instantaneous values
         df_res = df.reindex(
-- 
2.43.0


From 982fc142ad0245ad9f74cd89cb9967d014bf3ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 35/38] fix: aggregate to daily time steps relative to the
 start date of the run

---
 openamundsen/fileio/meteo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 4be31cb..b8fe2cc 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -328,7 +328,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
             )
             aggregate = True
 
-        end_date = (end_date + td_1d).normalize()
+        end_date = end_date + td_1d
 
     if inferred_freq is not None and inferred_freq != freq:
         # keep data from previous day for aggregation, if present
@@ -381,7 +381,7 @@ def _resample_dataset(ds, start_date, end_date, freq, aggregate=False):
         resample_kwargs = {
             "label": "left",
             "closed": "right",
-            "origin": "start",
+            "origin": pd.Timestamp(start_date),
         }
     else:
         raise errors.MeteoDataError("Resampling to frequencies > 1 day is not supported")
-- 
2.43.0


From ff05fceec76bd88b230e477f84753f13db9d6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 36/38] fix: do not resample station data which already has the
 model time step

---
 openamundsen/fileio/meteo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index b8fe2cc..4037fb6 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -330,7 +330,7 @@ def _slice_and_resample_dataset(ds, start_date, end_date, freq, aggregate=False)
 
         end_date = end_date + td_1d
 
-    if inferred_freq is not None and inferred_freq != freq:
+    if inferred_freq is not None and util.to_offset(inferred_freq) != util.to_offset(freq):
         # keep data from previous day for aggregation, if present
         ds = ds.sel(time=slice(start_date - td_1d, end_date))
         ds = _resample_dataset(ds, start_date, end_date, freq, aggregate=aggregate)
-- 
2.43.0


From f0dc482b20ef4b133323ffed94aeb237c3427c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 37/38] fix: check for missing time steps within the combined
 station data

---
 openamundsen/fileio/meteo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openamundsen/fileio/meteo.py b/openamundsen/fileio/meteo.py
index 4037fb6..23e9baf 100644
--- a/openamundsen/fileio/meteo.py
+++ b/openamundsen/fileio/meteo.py
@@ -149,11 +149,11 @@ def read_meteo_data(
     ds_combined = forcing.combine_point_datasets(datasets)
     dates_combined = ds_combined.time.to_index()
 
-    if dates_combined[0] > start_date or dates_combined[-1] < end_date:
+    dates = pd.date_range(start=start_date, end=end_date, freq=freq)
+
+    if len(dates.difference(dates_combined)) > 0:
         if not raise_on_missing_data:
-            ds_combined = ds_combined.reindex(
-                time=pd.date_range(start=start_date, end=end_date, freq=freq),
-            )
+            ds_combined = ds_combined.reindex(time=dates)
         else:
             raise errors.MeteoDataError(
                 "Insufficient meteo data available.\n"
-- 
2.43.0


From 3496805bcd511d2311db8da132f1a8d5a85fca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:10 +0000
Subject: [PATCH 38/38] fix: convert cloud fractions without units

---
 openamundsen/forcing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openamundsen/forcing.py b/openamundsen/forcing.py
index 9dbb627..efdc1e4 100644
--- a/openamundsen/forcing.py
+++ b/openamundsen/forcing.py
@@ -142,10 +142,11 @@ def make_point_dataset(
             # explicitly set to "1" or if no units are set but the maximum cloud fraction value is
             # <= 1. (As the cloud_fraction model variable has units "1" but for the forcing data
             # units "%" are expected, this could happen easily.)
-            if data["cloud_fraction"].attrs.get("units") == "1" or (
-                len(data) > 10 and data["cloud_fraction"].max() <= 1
+            units = data["cloud_fraction"].attrs.get("units")
+            if units == "1" or (
+                units is None and len(dates) > 10 and data["cloud_fraction"].max() <= 1
             ):
-                data["cloud_fraction"] *= 100
+                data["cloud_fraction"] = data["cloud_fraction"] * 100
                 data["cloud_fraction"].attrs["units"] = "%"
 
         units = meta["units"]
-- 
2.43.0

