"""The properties; `python3 meta/gen.py` writes properties.jsonl and MANIFEST.json from this."""

P = []
# properties decided mainly by bounded instances or run-time contract checks
BOUNDED = {"C12", "C18", "C19", "C23", "C24", "C26", "C29", "C30", "C32"}


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), note=""):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=list(state),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None),
        note=note))


IN = ["inputs"]
ANY = ("for every grid, region of interest, pixel, admissible state and forcing; "
       "numbers treated as reals, NaN and infinities included where inputs may be missing")
FULL = ("the only tests that reach this code run whole-model simulations on a few fixed data sets (and need "
        "downloaded data here); they sample a handful of states and compare no balance at all pixels")

ML = "openamundsen/modules/snow/multilayermodel.py"
CL = "openamundsen/modules/snow/cryolayermodel.py"
SN = "openamundsen/modules/snow/snow.py"

prop("C01", "Multilayer snowpack conserves water in every process step",
     "In the multilayer snow model no process step creates or destroys water: the change of the total water content "
     "(ice plus liquid water of all layers) over accumulation, melt, sublimation/resublimation, runoff/refreezing and "
     "layer redistribution equals the fluxes that step reports (snowfall added, rain taken up, sublimation and "
     "resublimation, runoff), and redistribution of layers also conserves ice, liquid water and heat content "
     "separately. Reported melt equals the ice turned into liquid water and reported refreezing the reverse.",
     IN, ANY, FULL, [ML],
     [("kernels _melt, _sublimation, _runoff, _update_layers and the methods calling them", ML)],
     ["state.snow.ice_content / liquid_water_content / melt / sublimation / resublimation / runoff / refreezing"],
     note="layer loops: bounded instances (1-3 layers) unless listed as cut by invariant in the evidence")
prop("C02", "Multilayer snowpack state stays physically valid",
     "Starting from a valid state, every process step of the multilayer snow model leaves a valid state: contents and "
     "thicknesses are not negative, layers beyond the layer count are empty, the layer count stays within the "
     "configured number of layers, no snow layer ends a step warmer than the melting point because of melt or "
     "refreezing, retained liquid water does not exceed the holding capacity after runoff, and derived density, depth, "
     "SWE and layer sums agree with the layers.",
     IN, ANY, FULL, [ML],
     [("layer bookkeeping", ML), ("update_properties, holding capacity", ML)],
     ["state.snow.*"])
prop("C03", "Cryo-layer snowpack conserves water in every process step",
     "In the cryo-layer snow model (new snow, old snow, firn, ice) every step (accumulation, energy-balance or "
     "temperature-index melt, refreezing, sublimation, runoff, layer transitions) changes the total water content by "
     "exactly the fluxes it reports, and transitions between layers move mass (and the cold content that goes with it) "
     "without creating or losing any.",
     IN, ANY, FULL, [CL], [("CryoLayerSnowModel methods", CL)],
     ["state.snow.ice_content / liquid_water_content / melt / refreezing / sublimation / runoff"])
prop("C04", "Cryo-layer snowpack state stays physically valid",
     "Starting from a valid state, every step of the cryo-layer snow model leaves non-negative contents and "
     "thicknesses, liquid water within the holding capacity after runoff, layers emptied completely when they vanish, "
     "layer transitions only at their defined times or density thresholds, and a surface layer type, depth, SWE and "
     "density consistent with the layers.",
     IN, ANY, FULL, [CL], [("CryoLayerSnowModel methods", CL)], ["state.snow.*", "state.surface.layer_type"])
prop("C05", "Snow albedo stays within its configured bounds and ages as documented",
     "Snow albedo always lies between the configured minimum and maximum; without relevant snowfall it decays towards "
     "the minimum and never increases, decays faster in melting than in cold conditions as configured, and snowfall "
     "refreshes it without exceeding the maximum; pixels without snow do not carry a snow albedo over.",
     ["inputs", "configurations"], ANY, FULL, [SN, CL, ML], [("snow.albedo", SN)], ["state.snow.albedo"])
prop("C06", "Snow compaction is monotone and mass conserving",
     "Compaction never changes ice or liquid water, never increases layer thickness or decreases density, never lets a "
     "layer get denser than its bound, and leaves empty layers empty, for both compaction methods; the densification "
     "rate is the one of the configured method.",
     ["inputs", "configurations"], ANY, FULL, [SN, CL, ML], [("snow.compaction", SN)],
     ["state.snow.thickness, density"])
prop("C07", "Tridiagonal solvers return the solution of the system",
     "For every strictly diagonally dominant tridiagonal system the scalar and the array solver return x with A x = d "
     "for every equation, for every column of the array version independently, and do not modify their inputs unless "
     "asked to.",
     IN, "all coefficient and right-hand-side values of every strictly diagonally dominant system",
     "one test with one random system", ["openamundsen/tridiag.py"],
     [("solve_tridiag, solve_tridiag_array", "openamundsen/tridiag.py")], ["return value"])
prop("C08", "Heat conduction conserves energy and couples snow to the soil below",
     "Implicit heat conduction stores in each layer exactly the heat that flows in minus what flows out over the time "
     "step, using series conductances between layers, the surface heat flux at the top and the layer below at the "
     "bottom (the topmost soil layer for a snowpack); with no surface flux no temperature leaves the range spanned by "
     "the initial temperatures and the lower boundary.",
     IN, ANY, "only whole-model runs reach it", ["openamundsen/heatconduction.py", ML],
     [("temp_change, temp_change_array", "openamundsen/heatconduction.py"), ("_heat_conduction", ML)],
     ["state.snow.temp", "return value"])
prop("C10", "Precipitation is partitioned into snow and rain without loss",
     "At every pixel of the region of interest snowfall plus rainfall equals precipitation and both are non-negative; "
     "the snow fraction falls monotonically (linearly in the mixed range, one half at the threshold) with the chosen "
     "phase temperature and a missing phase temperature means rain. With enforce_no_snow_below_rain no snow falls at "
     "or below the highest all-rain elevation while higher pixels are unaffected, and snow redistribution factors "
     "scale snowfall only with precipitation kept equal to snowfall plus rainfall.",
     ["inputs", "configurations"], ANY, "tests evaluate a few temperatures", 
     ["openamundsen/model.py", "openamundsen/meteo/atmosphere.py"],
     [("_process_meteo_data", "openamundsen/model.py"),
      ("precipitation_phase", "openamundsen/meteo/atmosphere.py")],
     ["state.meteo.snowfall, rainfall, precip"])
prop("C13", "Meteorological conversions are consistent, bounded and invertible",
     "The atmospheric formulas agree with their documented definitions for all physical inputs: humidity, dew point, "
     "pressure/altitude, cloud factor/fraction, wind profile and wind component conversions are mutual inverses, "
     "saturation vapor pressure uses the water branch at or above 0 degC and the ice branch below and increases with "
     "temperature, cloud fraction, cloud factor and clear-sky emissivity stay within [0, 1], gas densities obey the "
     "ideal gas law, and missing inputs stay missing. The derived meteorological fields of every time step are these "
     "functions of that pixel's temperature, humidity and elevation, and the wet-bulb temperature solves the "
     "psychrometric equation.",
     IN, ANY, "tests evaluate a few values with tolerances of a percent or more",
     ["openamundsen/meteo/atmosphere.py", "openamundsen/model.py"],
     [("formulas", "openamundsen/meteo/atmosphere.py"), ("_process_meteo_data", "openamundsen/model.py")],
     ["return values", "state.meteo.*"])
prop("C27", "Undercatch correction applies the documented catch ratio and nothing else",
     "Station precipitation correction multiplies only positive recordings, by the documented factor of the selected "
     "method and gauge (constant snow correction factor scaled with the snow fraction; WMO functions by phase with "
     "wind at gauge height capped at 7 m/s; Kochendorfer function with wind capped at the gauge's maximum), leaves "
     "rain (WMO) and recordings without temperature or wind unchanged, never alters the other station variables, "
     "accepts all documented gauges and rejects unknown ones.",
     ["inputs", "configurations"], "for every station, time step, method and gauge", "no test covers the correction",
     ["openamundsen/meteo/precipcorr.py"],
     [("correct_station_precipitation", "openamundsen/meteo/precipcorr.py")], ["model.meteo precip"])
prop("C11", "Inverse distance weighting is exact, bounded and defined by the available stations",
     "For any stations and target point the interpolated value is the inverse-distance weighted mean of the available "
     "station values: equal to a station's value at that station's location, never outside the range of the available "
     "values, unaffected by stations without a value, equal to the value of the only station, and missing only if no "
     "station has a value; smoothing adds to the squared distance, inputs are not modified and unequal input lengths "
     "are refused.",
     IN, "for every number and position of stations, values (including missing ones), target point and power",
     "tests compare a few stations with a fixed expectation",
     ["openamundsen/interpolation.py"], [("idw, _idw", "openamundsen/interpolation.py")], ["return value"])
prop("C12", "Interpolated meteorological fields honour stations, lapse rates and value ranges",
     "For each meteorological variable the interpolated field is built from that variable's recordings of the current "
     "date at the stations that have one, with their own coordinates and that variable's configuration: the station "
     "value is reproduced at the station (trend removal and re-application cancel), a linear elevation trend is "
     "reproduced with the lapse rate of the current month, results stay within the variable's physical range and, "
     "with extrapolation disabled, within the range of the station values, the precipitation adjustment follows its "
     "definition, and without data precipitation is 0 and other variables are missing. Only the variable's field in "
     "the region of interest is written.",
     ["inputs", "configurations"], "for every variable, trend method, station set, lapse rate and target pixel",
     "tests check a few synthetic station sets and mostly compare the model with itself",
     ["openamundsen/meteo/interpolation.py"],
     [("interpolate_param", "openamundsen/meteo/interpolation.py"),
      ("interpolate_station_data", "openamundsen/meteo/interpolation.py")], ["state.meteo.*"])
prop("C15", "Soil water balance of the evapotranspiration model closes",
     "In every time step and for every land cover class the water stores are balanced and bounded: the root zone and "
     "the surface soil layer lose exactly what evaporates, transpires and percolates and gain exactly the rain (as "
     "far as the store can be depleted), percolation occurs only from a filled store, depletions stay within [0, "
     "total available/evaporable water], interception on sealed surfaces stays within [0, capacity] with storage "
     "change = rain - runoff - evaporation. Evaporation, transpiration and their sum are non-negative, follow the "
     "FAO-56 definitions (reference ET, crop, evaporation reduction and water stress coefficients), and vanish under "
     "snow; missing meteorology does not propagate into the stores; other pixels are untouched.",
     ["inputs", "states"], "for every land cover class kind, growth stage, soil state, forcing (including missing) and pixel",
     "the evapotranspiration test needs downloaded data (not run here) and checks only signs and a sum",
     ["openamundsen/modules/evapotranspiration/evapotranspiration.py"],
     [("EvapotranspirationModel.evapotranspiration and the methods it calls",
       "openamundsen/modules/evapotranspiration/evapotranspiration.py"),
      ("EvapotranspirationModel.initialize", "openamundsen/modules/evapotranspiration/evapotranspiration.py")],
     ["state.evapotranspiration.*"])
prop("C16", "Crop coefficient, plant height and leaf area index follow the growing season",
     "On every day and for all growth stage lengths (including zero-length stages and several growth cycles) the crop "
     "coefficient is the minimum outside the growing period, constant in the initial and mid-season stages and linear "
     "in the development and late-season stages, hence always within the given coefficients; plant height is "
     "proportional to it and does not shrink before the season ends; the leaf area index stays within the class's "
     "[min, max], follows the same curve, and the effective index adds the structural part, at the pixels of that "
     "class only.",
     ["inputs", "configurations"], "for every day, stage lengths, coefficients, land cover class and pixel",
     "no test covers the curves",
     ["openamundsen/modules/evapotranspiration/evapotranspiration.py", "openamundsen/landcover.py"],
     [("crop_coefficient", "openamundsen/modules/evapotranspiration/evapotranspiration.py"),
      ("LandCover.lai", "openamundsen/landcover.py")], ["state.land_cover.lai", "return values"])
prop("C14", "Canopy interception storage is balanced and inside-canopy meteorology is damped as defined",
     "At every forest pixel the intercepted snow store changes by exactly interception minus sublimation minus melt "
     "unload, never becomes negative, is never filled beyond its capacity by interception, and what does not stay in "
     "the canopy reaches the ground (ground snowfall = snowfall - interception + unload; precipitation = snowfall + "
     "rainfall), also when meteorological variables are missing. Inside the canopy radiation is attenuated by Beer's "
     "law, wind speed reduced, humidity raised up to saturation, temperature damped towards the mean of the last 24 "
     "hours and longwave radiation lies between sky and canopy emission; the above-canopy values are kept. Pixels "
     "without forest are untouched.",
     ["inputs", "states"], "for every forest pixel, leaf area index, load, forcing (including missing) and time step",
     "the canopy tests need downloaded data (not run here) and check signs only",
     ["openamundsen/modules/canopy/canopy.py"],
     [("CanopyModel.snow, CanopyModel.meteorology", "openamundsen/modules/canopy/canopy.py"),
      ("above_canopy_meteorology", "openamundsen/modules/canopy/canopy.py")],
     ["state.snow.canopy_*", "state.meteo.*"])
prop("C09", "Surface energy balance closes and melt energy is accounted for",
     "At every pixel the reported surface fluxes obey their definitions at the reported surface temperature (reflected "
     "and emitted radiation, net radiation, sensible heat from the warmer to the colder medium, latent heat = latent "
     "heat of the surface's phase * moisture flux, ground heat flux, heat advected by precipitation) and balance: in "
     "the multilayer model the linearised balance closes with the temperature change and melt (exactly at the melting "
     "point with partial melt), with melt only of existing ice and no ice-covered surface above 0 degC; in the "
     "cryo-layer model the energy left at 0 degC first consumes cold content and then melts ice from the top layer "
     "down, an energy deficit first refreezes liquid water and then builds up bounded cold content, and the surface "
     "temperature of cold snow is the zero of the balance, limited to 0 degC. Albedo, roughness, exchange coefficient "
     "(with stability correction) and surface layer properties follow from the snow and soil state.",
     ["inputs", "states", "configurations"], ANY, FULL, ["openamundsen/surface.py"],
     [("energy_balance, multilayer_energy_balance, cryo_layer_energy_balance", "openamundsen/surface.py"),
      ("surface_properties, stability_factor", "openamundsen/surface.py"),
      ("iterate_surface_temperature", "openamundsen/surface.py")],
     ["state.surface.*", "state.meteo.sw_out, lw_out, net_radiation", "state.snow.melt, refreezing, cold_content"],
     note="surface temperature iteration: run-time contract check only (iteration count not bounded)")
prop("C17", "Soil moisture phases, thermal properties and heat fluxes conserve water and energy",
     "In every soil layer frozen plus unfrozen moisture equals the total moisture, both within [0, saturation]; nothing "
     "is frozen at or above 0 degC, and below it the unfrozen part follows the freezing point depression curve; the "
     "(apparent) heat capacity is at least that of dry soil and accounts for water, ice and the latent heat of freezing "
     "in degrees relative to the melting point; the thermal conductivity lies between dry and saturated; dry soil has "
     "the dry properties. The flux into the soil is the surface heat flux without snow and the conductive flux from the "
     "lowest snow layer below snow; the temperature update stores in each layer exactly inflow minus outflow. "
     "Initial properties follow from the sand and clay fractions and the configured moisture.",
     ["inputs", "states", "configurations"], ANY, FULL, ["openamundsen/modules/soil/soil.py", "openamundsen/heatconduction.py"],
     [("soil_properties, soil_heat_flux, soil_temperature, initialize", "openamundsen/modules/soil/soil.py"),
      ("temp_change_array", "openamundsen/heatconduction.py")], ["state.soil.*"],
     note="number of soil layers bounded (1-3).")
prop("C20", "Simulation is confined to, and complete on, the region of interest",
     "For every grid, region of interest, configuration and run: outside the region of interest no simulated variable "
     "ever changes from its initial (no data) value, apart from the surface bookkeeping fields (snow area fraction, "
     "albedo, roughness length, runoff) that may take their snow-free default; inside, with complete station data every "
     "pixel gets meteorological, radiation, surface and snow values in every time step, and each pixel of the region "
     "is listed exactly once.",
     ["inputs", "states", "configurations", "histories"], "for every pixel, state and time step (induction over steps)",
     "the tests check a few variables in one configuration",
     ["openamundsen/model.py", "openamundsen/surface.py", "openamundsen/modules/"],
     [("OpenAmundsen._model_interface", "openamundsen/model.py"), ("energy_balance, surface_properties", "openamundsen/surface.py"),
      ("MultilayerSnowModel, CryoLayerSnowModel", "openamundsen/modules/snow/")], ["state.*"],
     note="outside: inductive invariant of one complete step, all obligations discharged; completeness inside and the "
          "radiation stage: run-time contract check of small complete runs (bounded).")
prop("C21", "A run processes every date of its time axis exactly once, in order",
     "For every time axis and every history of run()/run_single() calls: the time axis starts at the start date and is "
     "equidistant up to the end date; each run_single() call processes exactly the next date - meteorology, model "
     "interface, outputs and the registered callbacks, each once, in this order, all seeing that date and the "
     "configured number of threads - and restores the process-wide thread count, also if the step fails; after the last "
     "date it is refused and changes nothing; run() processes all dates and is refused once a run has been started.",
     ["histories", "inputs", "configurations"], "for every number of dates (loop invariant) and call history",
     "tests run one or two short runs", ["openamundsen/model.py"],
     [("OpenAmundsen.run, run_single, _prepare_time_steps, _resolve_numba_threads", "openamundsen/model.py")],
     ["date_idx, date", "stages called", "thread count"])
prop("C22", "Calendar properties of a time step (first/last of day, month, year, run) are exact",
     "For every date of the Gregorian calendar and every time step up to one day: the strict first/last-of-day, "
     "-month and -year flags of the current time step are true exactly for the first respectively last possible step "
     "of the period, including leap days and year ends, and the non-strict flags are true additionally exactly for the "
     "first respectively last step of the run.",
     ["inputs"], "for every timestamp and time step <= 1 day (calendar axioms)",
     "tests sample few dates", ["openamundsen/model.py"],
     [("OpenAmundsen.timestep_props", "openamundsen/model.py")], ["return value"])
prop("C23", "Glacier geometry update redistributes ice within a glacier without creating or losing mass",
     "At the end of a mass balance year whose start was recorded, and at no other time, the ice of each glacier is "
     "redistributed: the changes add up to the glacier's mass balance, follow the published elevation pattern of its size class and are capped by the mass loss of its terminus (the surplus goes to the other pixels); a losing glacier gains nowhere and a gaining one "
     "gains equally; ice never becomes negative or missing, no ice mass is lost, total mass is conserved unless a pixel "
     "runs out of ice; pixels outside glaciers and the other layers are untouched, and layers are brought up to date "
     "afterwards. The glacier map is kept over the run.",
     ["inputs", "states", "histories"], "for every glacier map, elevation, ice and mass balance",
     "the tests check one synthetic glacier", ["openamundsen/modules/glacier/glaciermodel.py"],
     [("GlacierModel.update, _update_geometry, _ice_mass_change, _delta_h", "openamundsen/modules/glacier/glaciermodel.py")],
     ["state.snow.ice_content, thickness"], note="redistribution bounded to glaciers of 2-3 pixels.")
prop("C26", "Grid, pixel list and coordinate conversions agree",
     "For every grid and region of interest: a mask over the pixels of a subset put back into the grid is true exactly "
     "at the corresponding grid pixels (with and without layer dimension; wrong sizes are refused); pixel centre "
     "coordinates, axes, bounds and the pixel lists of the region of interest belong together; stations are assigned to "
     "the pixel that contains them; converting pixel-layout output to a grid puts every value at its pixel and no data "
     "elsewhere.",
     ["inputs"], "for every grid, mask and coordinate", "tests sample one grid",
     ["openamundsen/model.py", "openamundsen/util.py", "openamundsen/forcing.py"],
     [("OpenAmundsen.global_mask", "openamundsen/model.py"), ("ModelGrid, convert_roi_pixel_dataset_to_grid", "openamundsen/util.py"),
      ("prepare_point_coordinates", "openamundsen/forcing.py")], ["return values", "grid attributes"],
     note="bounded: grids up to 2x2 symbolically, up to 6x6 at run time; xarray/pyproj code by run-time contract check.")
prop("C28", "Non-retained state variables carry no information between time steps",
     "Resetting the state variables wipes exactly the variables declared as not retained (to no data, zero or false by "
     "type) and leaves the retained ones; and for every run it makes no difference to any result whether the model "
     "resets them before each step or not. Variables are addressed by name with the declared shape, type and metadata; "
     "duplicate or invalid names are refused.",
     ["states", "configurations", "histories"], "for every variable and state; runs of every model configuration",
     "no test compares runs with and without reset", ["openamundsen/statevars.py", "openamundsen/model.py"],
     [("StateVariableManager.reset, add_category", "openamundsen/statevars.py"), ("OpenAmundsen.run_single", "openamundsen/model.py")],
     ["state.*"], note="independence of the results: run-time contract check of small complete runs (bounded).")
prop("C29", "Water balance of a complete time step, and reproducible runs",
     "For every pixel, model configuration and time step: snow cover plus canopy storage change by exactly precipitation "
     "minus runoff minus sublimation; the stages run in an order in which melt, runoff and layer updates refer to the "
     "current step; snow water equivalent and depth are those of the layers; contents and runoff are never negative. A "
     "run is a function of its inputs (repeating it or stepping through it gives identical results).",
     ["inputs", "states", "configurations", "histories"], "for every pixel, state and step",
     "tests check single components", ["openamundsen/model.py", "openamundsen/modules/"],
     [("OpenAmundsen._model_interface, run_single", "openamundsen/model.py")], ["state.snow.*", "state.meteo.precip"],
     note="composition of the callees' mass clauses (C01, C03, C14) discharged; complete runs: run-time contract check (bounded).")
prop("C24", "Terrain parameters agree with each other and with the terrain",
     "For every elevation model: slopes lie in [0, 90) degrees and their tangent is the magnitude of the elevation "
     "gradient, aspects are azimuths pointing down that gradient, and surface normals are unit vectors pointing upwards "
     "perpendicular to the surface; a pixel is shaded exactly if terrain towards the sun reaches above the ray to the "
     "sun, flat terrain and the highest pixel never are, and a higher sun or fewer sweeps shade no further pixel; sky view factors lie in "
     "[0, 1], are 1 for flat terrain, and follow from the horizon angles; curvature and openness follow their "
     "definitions. The elevation model itself is not modified, and results do not depend on the thread schedule.",
     ["inputs", "schedules"], "for every elevation model, resolution, sun position and thread schedule",
     "tests check a few values on one elevation model",
     ["openamundsen/terrain.py", "openamundsen/modules/radiation/shadows.py"],
     [("slope_aspect, normal_vector, sky_view_factor, curvature, openness", "openamundsen/terrain.py"),
      ("shadows", "openamundsen/modules/radiation/shadows.py")],
     ["return values", "state.base.slope / aspect / normal_vec / svf"],
     note="gradient of a generic interior / border pixel discharged for all values; shadows, sky view factor, openness: "
          "bounded grids and run-time contract check; thread schedules: repeated parallel runs.")
prop("C25", "Radiation stays within its physical bounds and follows the published parameterisations",
     "For every date, time and place: the sun vector is a unit vector, day angle, declination and hour angle follow the "
     "calendar for every day of leap and common years; transmittances lie in (0, 1]; clear sky direct irradiance is not "
     "negative, is 0 in the shade and on slopes facing away, and never exceeds the extraterrestrial irradiance on the "
     "slope; diffuse irradiance is not negative; no shortwave irradiance at night; global is direct plus diffuse; "
     "longwave irradiance is the sky's and the surrounding terrain's share by sky view factor with the configured "
     "emissivities; the radiation balance is incoming minus reflected/emitted radiation; nothing changes outside the "
     "region of interest.",
     ["inputs", "configurations"], "for every date, location, terrain, sun position, atmosphere and surface state",
     "tests check a few values of the sun position",
     ["openamundsen/modules/radiation/sunparams.py", "openamundsen/modules/radiation/clearsky.py",
      "openamundsen/modules/radiation/irradiance.py"],
     [("sun_parameters", "openamundsen/modules/radiation/sunparams.py"),
      ("_clear_sky_shortwave_irradiance, _transmittances", "openamundsen/modules/radiation/clearsky.py"),
      ("shortwave_irradiance, longwave_irradiance, clear_sky_shortwave_irradiance", "openamundsen/modules/radiation/irradiance.py")],
     ["state.meteo.sw_in / dir_in / diff_in / lw_in / lw_out / sw_out"],
     note="kernels discharged over the reals; complete runs with cloud parameterisations by run-time contract check (bounded).")

prop("C18", "Gridded outputs report the state of the time steps and pixels they name",
     "For every output variable, format (memory, NetCDF, ASCII, GeoTIFF), layout, frequency or list of dates and history "
     "of states: the field written at a date is the state variable at that date (no aggregation) or the sum / mean "
     "over exactly the time steps since the previous write date (aggregation), every time step of a complete interval "
     "counted once, no data outside the region of interest and wherever a value is missing; dates, bounds and coordinates "
     "name the right time steps and pixels; writing does not alter the state. Frequencies that are not multiples of the "
     "time step are refused.",
     ["histories", "states", "configurations"], "for every sequence of states, frequency and format",
     "tests compare a few frequencies on one run", ["openamundsen/fileio/griddedoutput.py", "openamundsen/fileio/raster.py"],
     [("GriddedOutputManager.update, _freq_write_dates", "openamundsen/fileio/griddedoutput.py"),
      ("write_raster_file", "openamundsen/fileio/raster.py")], ["output files", "gridded_output.data"],
     note="one aggregation step proved inductively for all histories; file formats by run-time contract check (bounded).")
prop("C19", "Point time series report the state of the pixel at every time step",
     "For every set of points, variables, write frequency and format (memory, NetCDF, CSV): the output holds, for every "
     "time step of the run exactly once and in order, the value of the state variable (every layer) at the pixel that "
     "contains the point, under the name of the point; nothing is lost or repeated at chunk boundaries; point altitudes are "
     "those of the pixels; points outside the grid are refused.",
     ["histories", "states", "configurations"], "for every sequence of states, chunk length and format",
     "tests compare a few frequencies on one run", ["openamundsen/fileio/pointoutput.py"],
     [("PointOutputManager.update, _current_chunk_dates", "openamundsen/fileio/pointoutput.py")],
     ["output files", "point_output.data"],
     note="values of one time step discharged (bounded: grids of 2x2 pixels); file formats by run-time contract check (bounded).")
prop("C30", "The model is driven by exactly the requested station records",
     "For every set of station files, period and time step: stations are used exactly if they lie within the bounds and "
     "are not excluded, or are explicitly included; every time step gets the records it stands for and no other: "
     "instantaneous values, or means over the interval that ends at it ((d, d + 24 h] for daily steps), precipitation "
     "sums and gust maxima of that interval, direction of the mean wind vector; values are taken over unchanged except for "
     "the documented unit conversions and value filters, under the name, coordinates and altitude of the station; the "
     "time axis is exactly that of the model run. Irregular records, unknown units, impossible resampling and missing "
     "periods are refused (or filled with no data where the checks are disabled).",
     ["inputs", "configurations"], "for every record, period, time step and set of stations",
     "tests read one set of station files", ["openamundsen/fileio/meteo.py", "openamundsen/forcing.py"],
     [("read_meteo_data, _slice_and_resample_dataset, _apply_station_rules, _apply_filter", "openamundsen/fileio/meteo.py"),
      ("make_point_dataset, combine_point_datasets", "openamundsen/forcing.py")], ["return values", "model.meteo"],
     note="value filters discharged for every record; pandas/xarray code is outside the verifier's reach: run-time contract "
          "check against an independent reference (bounded).")
prop("C31", "Input grids arrive at their pixels, inconsistent files are refused",
     "For every set of input grids (elevation, region of interest, sky view factor, land cover, soil texture, snow "
     "redistribution factors, extended elevation model): every value of a file arrives at its pixel, no data as no data; "
     "the region of interest is exactly the marked pixels of known elevation (plus the station pixels if requested); "
     "the pixel lists and terrain parameters follow from these grids, and the model grid lies at its place in the extended "
     "grid. Missing files and files that differ from the elevation model in position, size or resolution are refused; "
     "reading returns what was written.",
     ["inputs", "configurations"], "for every content and combination of input grids",
     "tests use one complete set of files", ["openamundsen/model.py", "openamundsen/fileio/raster.py"],
     [("OpenAmundsen._read_input_data, _read_extended_grids, _initialize_grid", "openamundsen/model.py"),
      ("read_raster_file, read_raster_metadata, write_raster_file", "openamundsen/fileio/raster.py")],
     ["model.grid", "model.state.base", "return values"],
     note="_read_input_data discharged for every pixel value over the contract of read_raster_file; the files themselves "
          "by run-time contract check (bounded grids).")
prop("C32", "A run uses exactly the configured options, invalid configurations are refused",
     "For every configuration: the parsed configuration holds the given values and the defaults for everything else, "
     "with the documented conversions (date-only end dates are the last time step of that day, time steps, temperatures "
     "in degrees Celsius, deprecated option names and albedo methods); parsing a parsed configuration changes nothing and "
     "the argument is not modified. Unknown options, end dates before the start or off the time step, geographic "
     "coordinate systems, melt methods without their factors and unsupported combinations are refused.",
     ["configurations"], "for every combination of options and values", "tests check a few invalid configurations",
     ["openamundsen/conf.py"], [("parse_config, validate_config, _parse_end_date", "openamundsen/conf.py")],
     ["return values", "ConfigurationError"],
     note="validate_config discharged for all option values; schema validation by the cerberus library: run-time contract "
          "check (bounded).")
