"""Writes properties.jsonl and MANIFEST.json for every property whose check module exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
O = "src/ecoengine/objects/"
DS = O + "dhwsystems/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, state=state or []))


prop("P01", "Demand accounting: every gallon of daily use is drawn, once, in its hour",
     "A building's hot-water demand series is its daily use (people/units times gallons per person or unit for its type, or the sum over the types of a mixed-use building) spread by its hourly load shape: for every timestep length the draws inside an hour add up to that hour's share and the draws of a day to the daily use. "
     "Peak and average shapes are each used where asked for, annual profiles (where the building type has one) replace the daily shape only while switched on, and combined shapes stay normalised and demand-weighted.",
     ["inputs", "configurations", "histories"],
     "all building types and magnitudes, mixes of types, custom shapes, gallons-per-person values, timestep lengths and indices over a whole year, and every order of switching between daily and annual shapes",
     "Tests look up a handful of hours for one or two building types; conservation over every day, hour, timestep and mixed-use combination is a sum over the whole series.",
     [O + "building/Building.py", "src/ecoengine/interfaces/EcosizerEngine.py"],
     [("get_dhw_load_supplyT_gal / shape normalisation / combine_buildings", O + "building/Building.py")],
     ["Building.get_dhw_load_supplyT_gal", "daily_dhw_use_supplyT_gal", "peak_load_shape", "avg_load_shape"],
     "conservation monitor over whole demand series + reference demand model",
     "Held on all explored buildings; load-shape data files are compared with a golden copy.")

prop("P02", "Climate fidelity: design and hourly conditions come from the right location",
     "Zone id, zip code, weather station and explicit design conditions each resolve to the documented climate: the coldest design outdoor temperature and design inlet temperature, hourly outdoor temperatures for all 8760 hours and monthly inlet temperatures of exactly that zone. "
     "A timestep reads the hour (outdoor air) and month (inlet water) in which it falls, wrapping at the end of the year, and unknown or out-of-range locations are rejected rather than mapped to another climate.",
     ["inputs"],
     "every zone 1-96, every listed zip code and weather station, every hour/month of the year at several timestep lengths, and unknown identifiers",
     "Tests touch a few zones and zips at a few hours; off-by-one month boundaries or shifted rows need the full table.",
     [O + "building/ClimateZone.py", O + "building/Building.py"],
     [("from_zone_id/from_zip_code/from_weather_station lookups", O + "building/ClimateZone.py")],
     ["ClimateZone getters", "Building.get_oat_f", "Building.get_inlet_water_temp_f"],
     "exhaustive lookup monitor against golden climate data",
     "Exhaustive over zones, stations and zip codes, sampled over hours (all month boundaries).")

prop("P03", "Storage and capacity sizing is exactly adequate and no larger",
     "For single-pass systems without recirculation, parallel-loop, single-pass return-to-primary and instantaneous systems, the sized heating capacity makes the day's hot water (plus recirculation loss where it is on the primary) within the allowed run hours, derated by defrost, and the sized storage is the worst cumulative shortfall of the cyclic design day, divided by the fraction of the tank that is usable above the on-sensor. "
     "The result depends only on the inputs, not on how the sizing was invoked (facade, class constructor, repeated sizing, annual shape switched on); impossible installations are refused.",
     ["inputs", "configurations", "histories"],
     "all schematics named, building types, load shapes with deficits anywhere in the day including across midnight, temperatures, run hours, aquastat positions, stratification slopes, defrost factors",
     "Existing tests pin a few example sizes; a wrong wrap-around or a missed second peak only shows for particular shapes.",
     [DS + "DHWSystem.py", DS + "rtp_systems/SinglePassRTPSystem.py", DS + "recirc_systems/ParallelLoopSystem.py", DS + "InstantWHSystem.py"],
     [("size() and its capacity / running volume / stratification steps", DS + "DHWSystem.py")],
     ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"],
     "differential monitor: independent exact sizing reference (cyclic deficit by enumeration, usable fraction by integration)",
     "Reference re-derives the sizing from the physical definition; tolerance 1e-6.")

prop("P04", "Load-shift sizing covers the shed window and never undercuts the base size",
     "With a shed schedule, capacity and storage are at least the ordinary size with run hours capped at the non-shed hours, and large enough that the first shed block's average-day demand (times the covered share of days) is stored beforehand, load-up hours can charge it, and the demand after the block is recovered. "
     "The covered share follows the documented normal distribution of daily demand, and a sized system's run-hour setting is left as the user gave it.",
     ["inputs", "configurations"],
     "all load-shift capable schematics, one or two shed blocks, load-up lengths, sensor positions and load-shift percentages",
     "Tests use one or two schedules; block boundaries, load-up ratios and the percentile mapping vary over a large space.",
     [DS + "DHWSystem.py", DS + "rtp_systems/SinglePassRTPSystem.py", DS + "recirc_systems/SwingSystem.py"],
     [("load-shift capacity/storage steps of size()", DS + "DHWSystem.py")],
     ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"],
     "differential monitor against an independent load-shift sizing reference + dominance invariants",
     "Tolerance 1e-6; dominance over the non-load-shift size checked on every case.")

prop("P05", "Temperature-maintenance equipment is sized to carry the recirculation loss",
     "For parallel-loop systems the temperature-maintenance capacity is the loop loss times the safety factor and its tank holds the loop through the off time between the on and off temperatures, refusing combinations that would short-cycle. "
     "For swing systems the tank volume comes from the smallest table step that carries the loop loss (separate values for the California code) and the element is the loss times the safety factor; the trade-off variant enlarges the element exactly when the primary is undersized.",
     ["inputs", "configurations"],
     "all loop flows and return temperatures, safety factors, on/off temperatures, off times, and table boundaries",
     "Tests check single points; step boundaries of the table and refusals need values on both sides of every edge.",
     [DS + "recirc_systems/ParallelLoopSystem.py", DS + "recirc_systems/SwingSystem.py", DS + "recirc_systems/SwingERTrdOffSystem.py", DS + "recirc_systems/RecircSystem.py"],
     [("TM sizing", DS + "recirc_systems/RecircSystem.py")],
     ["get_minimum_tm_capacity_kbtuh", "get_minimum_tm_volume_gal", "get_minimum_tm_ca_volume_gal"],
     "differential monitor with boundary-targeted inputs",
     "Every table edge is exercised on both sides.")

prop("P06", "Swing and multi-pass primary sizing follows the loop-heat and mixing physics",
     "A swing system's primary is sized on the hot water the tempered swing tank really takes from storage (minute-by-minute mixing with the loop loss on the design day), and a multi-pass return-to-primary system's capacity and storage cover draws and loop loss within its run hours with the slug-heating storage model. "
     "Results are deterministic functions of the installation, whichever way sizing is invoked.",
     ["inputs", "configurations", "histories"],
     "all building types, load shapes, loop flows, temperatures, run hours and aquastats within the documented domain",
     "Tests pin example outputs; the fixed-point/simulation inside the sizing has many regimes.",
     [DS + "recirc_systems/SwingSystem.py", DS + "rtp_systems/MultiPassRTPSystem.py"],
     [("swing mixed-demand simulation; multi-pass storage search", DS + "recirc_systems/SwingSystem.py")],
     ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"],
     "differential monitor against an independent minute-level reference",
     "Tolerance 1e-6 relative (search results 1e-3 where the code searches).")

prop("P07", "Sizing curves are truthful: every point is a valid design and one is yours",
     "Every point of a sizing curve is exactly the size the same system would get if it were sized for that point's run hours (or load-shift percentage, or element size); run hours fall from 24, capacity rises and storage falls monotonically, and the recommended index marks the point equal to the system's own size. "
     "Asking for a curve changes nothing, and plotted curves show the same numbers.",
     ["inputs", "configurations", "histories"],
     "all schematics with a curve, non-load-shift, load-shift and element trade-off curves, step sizes, after arbitrary earlier queries",
     "Tests check lengths and monotonicity of one curve; truth of each of ~40-80 points requires re-sizing at each.",
     [DS + "DHWSystem.py", DS + "recirc_systems/SwingSystem.py", DS + "recirc_systems/SwingERTrdOffSystem.py", DS + "rtp_systems/SinglePassRTPSystem.py", DS + "rtp_systems/MultiPassRTPSystem.py"],
     [("get_sizing_curve, get_ls_sizing_curve, element trade-off curve", DS + "DHWSystem.py")],
     ["returned curve dictionaries", "plotly figures"],
     "pointwise re-sizing monitor (metamorphic) + reference comparison",
     "Sampled points re-sized on a fresh system; all points compared with the reference.")

prop("P08", "Queries are pure and runs repeatable: history never leaks into results",
     "Sizing, curves, plots, summaries, cost queries and simulations leave the building, the system configuration and the sized results as they were, including when a call fails part-way; simulating or sizing again, after any history, gives exactly the result a freshly constructed engine gives. "
     "Separate engines never influence each other.",
     ["histories", "fault_sequences", "inputs"],
     "random sequences of public operations (including failing ones) on one or several live engines, then comparison with a fresh engine",
     "Unit tests build a new object for each assertion, so leaks between calls are invisible to them.",
     [DS + "DHWSystem.py", "src/ecoengine/interfaces/Simulator.py", "src/ecoengine/interfaces/EcosizerEngine.py", O + "building/Building.py"],
     [("restore-in-finally around temporary changes; re-initialisation at simulation start", DS + "DHWSystem.py")],
     ["all public results before/after histories"],
     "history monitor: replayed operation sequences compared bit-for-bit with a fresh engine",
     "Observational (public results only), so internal caches are allowed.")

prop("P09", "Simulation records are complete, aligned and physically consistent",
     "A simulation that is not stopped early records exactly one entry per timestep in every series (3-day: 1-minute steps, annual: 10-minute steps), each with the demand, outdoor and inlet temperature and control mode of that moment; tank node temperatures never invert nor leave the range between incoming water and the hottest source, usable volume stays between zero and the tank, and heat output and power are never negative. "
     "Summary figures (energy, peak power, outage minutes, step count, failure message) are exactly the ones implied by the recorded series, temperature-maintenance included.",
     ["inputs", "configurations", "histories"],
     "every schematic, 3-day and annual, pre-sized and sized, nominal and modelled heaters, load-shift schedules",
     "Tests look at lengths and a few values of one run; alignment and consistency have to hold at each of thousands of steps.",
     ["src/ecoengine/interfaces/Simulator.py", O + "simulation/SimulationRun.py", DS + "DHWSystem.py"],
     [("simulate loop and record_timestep", "src/ecoengine/interfaces/Simulator.py")],
     ["SimulationRun series and summary methods"],
     "offline trace checker over recorded simulation series",
     "Every step of every run is judged.")

prop("P10", "Outage and early-stop verdicts are exact",
     "Reported outage minutes equal the number of simulated minutes in which a system with storage had no usable water left; the run is successful exactly when that does not exceed the tolerated minutes, tankless systems never report storage outages, and the failure message names the day of the first outage and the mean delivered temperature over the outage. "
     "A run stops early exactly at the step where the delivered temperature has stayed more than the allowed deficit below supply temperature for longer than the allowed consecutive time, never otherwise.",
     ["inputs", "configurations", "schedules"],
     "undersized to oversized systems of every schematic, thresholds and durations, deficits that come and go, recorded series of arbitrary shape",
     "Tests use one failing and one passing system; off-by-one timing, resets of the deficit counter and message content depend on the exact pattern.",
     ["src/ecoengine/interfaces/Simulator.py", O + "simulation/SimulationRun.py"],
     [("record_outage, check_outlet_deficit, get_failure_message", O + "simulation/SimulationRun.py")],
     ["SimulationRun.outage_minutes", "stopped_early", "is_successful", "get_failure_message", "get_summary"],
     "online deficit automaton + offline recount over traces",
     "Exact integer comparison.")

prop("P11", "Heaters follow their sensors: on/off hysteresis, output only while on",
     "At every step a heater that is off starts exactly when its on-sensor reads below the on-trigger of that hour's control mode, and one that is on stops exactly when its off-sensor reads at or above the off-trigger; otherwise it keeps its state. "
     "Heat output and electric input are non-zero only while running, equal the sum over the running heaters of their performance at that step's outdoor, inlet and outlet temperatures, and the temperature-maintenance heater obeys its own thresholds.",
     ["inputs", "configurations", "histories", "schedules"],
     "every schematic, one to several heaters with different sensors, load-shift mode changes mid-run, arbitrary tank states",
     "Tests check single transitions with hand-made tanks; the property ranges over all reachable state/mode sequences.",
     [O + "components/heating/WaterHeater.py", O + "components/heating/Controls.py", DS + "DHWSystem.py"],
     [("should_turn_on/should_turn_off/update_state", O + "components/heating/Controls.py")],
     ["WaterHeater.is_active", "recorded output and power series"],
     "online hysteresis automaton over live heaters + trace checker over simulation records",
     "Sensor readings are taken through the public tank interface; a tiny band around the trigger is tolerated.")

prop("P12", "Stratified tank obeys its temperature profile and conserves energy",
     "A stratified tank is always a clamped straight ramp between incoming-water and hot temperature: it is never hotter below than above, heating moves the ramp by exactly the energy put in, a draw at supply temperature removes exactly the energy delivered (while the hot zone lasts) and never takes the top below supply temperature by itself, and recirculation return removes the loop's loss. "
     "Usable volume and average draw temperatures are the ones of that profile.",
     ["inputs", "histories"],
     "random histories of initialise/heat/draw/physical draw/recirculation on tanks of all sizes and slopes, with changing inlet and outlet temperatures, empty and overfull extremes",
     "Tests do one operation from one initial state; drift and clamping errors only appear along histories and at the ends of the ramp.",
     [O + "components/storage/StratifiedTank.py"],
     [("profile shift on heat/draw; average draw solver", O + "components/storage/StratifiedTank.py")],
     ["get_temperature_at_fraction", "get_usable_volume_supplyT_gal", "get_average_draw_temp_f"],
     "online reference-profile monitor after every tank operation + energy balance",
     "Profile compared at 12 heights after each operation, tolerance ~2e-5 F.")

prop("P13", "Mixed, energy and slug tanks conserve mass and energy",
     "A mixed tank's temperature after any inflow, draw, heating or loss is the energy-weighted mean and is the same at every height; an energy tank's profile always holds exactly the energy put in minus that taken out, between empty and full; a multi-pass slug grows with the water drawn through, heats uniformly, and hands its energy back to the profile when heating stops. "
     "Usable volumes and draw temperatures follow from those states.",
     ["inputs", "histories"],
     "random operation histories on the three tank kinds over sizes, temperatures, slopes and usable fractions",
     "Tests exercise single operations; balance over histories and slug cycles is not covered.",
     [O + "components/storage/MixedStorageTank.py", O + "components/storage/EnergyTank.py", O + "components/storage/SlugOverlayTank.py"],
     [("mixing, energy bookkeeping, slug lifecycle", O + "components/storage/SlugOverlayTank.py")],
     ["get_temperature_at_fraction", "get_usable_volume_supplyT_gal", "get_average_draw_temp_f", "slug_temp_f"],
     "online reference-state monitor after every tank operation",
     "Comparison widened by the solver's own energy precision (1e-6).")

prop("P14", "Each schematic's simulation step follows its hydraulics",
     "Step by step, the simulated tank temperatures, usable volume, heater outputs and powers of every schematic are those of its documented hydraulics: heat then draw on stratified storage; loop return into the primary (return-to-primary), into a separate loop tank (parallel) or into a swing tank fed by primary water through a mixing valve; slug heating for multi-pass; demand-following output for instantaneous heaters. "
     "No step creates or loses hot water beyond heater input, draw and loop loss.",
     ["inputs", "configurations", "histories"],
     "all schematics, climates, load shapes, heater counts and models, control maps, 3-day and annual runs",
     "Tests check a handful of aggregate results; a wrong order, term or unit in one schematic can hide in aggregates.",
     [DS + "DHWSystem.py", DS + "recirc_systems/ParallelLoopSystem.py", DS + "recirc_systems/SwingSystem.py", DS + "rtp_systems/SinglePassRTPSystem.py", DS + "rtp_systems/MultiPassRTPSystem.py", DS + "InstantWHSystem.py"],
     [("simulate_step of each schematic", DS + "DHWSystem.py")],
     ["SimulationRun series"],
     "offline trace checker: stepwise reference simulation re-synchronised to the record",
     "Node temperatures within ~1e-4 F (multi-pass 0.05 F) at every step.")

prop("P15", "A system with margin over its computed size rides through the design day",
     "A system built with a moderate margin over the computed capacity and storage rides through the 3-day design simulation (after the first, warm-up day) and a whole simulated year without running out of hot water, and is reported successful. "
     "A system whose full tank and continuously running heaters cannot cover the demand of some stretch of the simulated days is reported as an outage with a failure message, never as a success.",
     ["inputs", "configurations"],
     "non-load-shift single-pass systems, all building types and climates, aquastats and run hours in the documented range",
     "Needs sizing and simulation to agree end-to-end over the input space; tests check one or two buildings.",
     [DS + "DHWSystem.py", "src/ecoengine/interfaces/Simulator.py"],
     [("size() and simulate() sharing one demand and tank model", DS + "DHWSystem.py")],
     ["SimulationRun.is_successful"],
     "end-to-end adequacy monitor on simulated design days",
     "Margins are stated in DESIGN.md; adequacy without margin is not promised by the code.")

prop("P16", "Mixing valve keeps the loop at supply temperature by mass and energy balance",
     "For a tempered recirculation loop, the water taken from storage and the temperature of the water that replaces it satisfy mass and energy balance: the heat leaving storage is exactly the heat of the hot water used plus the loop's loss, the delivered stream (use plus loop flow) is at supply temperature whenever storage is hotter than supply, and no more than that stream is ever drawn. "
     "Above the load at which the loop loss is carried by the used water the tank is refilled with cold water only, below it with a blend of cold and return water, and with storage at or below supply temperature the valve is fully open; the result moves continuously between the regimes.",
     ["inputs"],
     "all loads (including none), loop flows (including none), cold, return, supply and storage temperatures, including storage just above, at and below supply and loads on both sides of the critical one",
     "Tests sample a few temperatures; the balance and the regime boundaries are statements over six continuous inputs.",
     [DS + "utils.py"],
     [("mixing_valve_behavior", DS + "utils.py")],
     ["storage_draw_gal and inlet_temp_f of mixing_valve_behavior"],
     "mass/energy-balance monitor on random and boundary inputs + reference valve",
     "Relative 1e-9.")

prop("P17", "Performance maps: right model, right numbers, everywhere in the domain",
     "For every catalogued heat pump, capacity and input power at any outdoor, outlet and inlet temperature are finite, positive, follow the published map (interpolated inside it, held or extrapolated as documented outside), scale with the number of units, and give the coefficient of performance they imply; a nominal heater delivers its stated capacity at any condition and an unknown model is refused. "
     "The numbers do not depend on query order or on other heaters.",
     ["inputs", "histories", "configurations"],
     "all 126 catalogued models, conditions inside and outside the map, unit counts, nominal fallbacks, interleaved queries",
     "Tests query a few models at a few conditions.",
     [O + "components/heating/PerformanceMap.py", O + "components/heating/WaterHeater.py"],
     [("map loading, interpolation and extrapolation", O + "components/heating/PerformanceMap.py")],
     ["get_capacity_kbtuh", "get_power_in_kw", "get_cop"],
     "golden-sample differential monitor + scaling/finite-ness invariants",
     "Golden samples recorded from the reviewed tree.")

prop("P18", "Tariff lookups give every minute its one correct rate and period",
     "Every timestep of the year falls in exactly one demand period and gets the energy rate, demand rate and peak flag the user defined for that month and hour; peak hours, discount months and seasonal definitions apply exactly on their boundaries, for any timestep length. "
     "A tariff written to a file and read back gives the same rates.",
     ["inputs", "configurations"],
     "all ways of defining a tariff (seasonal lists, periods, discounts, per-hour files), every hour of the year, timestep lengths",
     "Tests probe several hours of one tariff; boundaries of 12 months x 24 hours x seasons are not.",
     [O + "building/UtilityCostTracker.py"],
     [("rate schedule construction and lookup", O + "building/UtilityCostTracker.py")],
     ["get_energy_charge_at_step", "get_demand_period_at_step", "get_demand_charge_for_period", "to_csv/from_csv"],
     "exhaustive 8760-hour lookup monitor against a reference tariff",
     "Every hour of every generated tariff is compared.")

prop("P19", "Costs and energy add up",
     "Annual cost is the sum over all timesteps of energy used times the rate in force, plus each demand period's highest power times its demand rate, plus base charges; the monthly breakdowns add up to it, peak/off-peak detail adds up to the breakdown, and monthly energy adds up to total energy. "
     "All electric use counts, temperature-maintenance included, and missing readings count as zero.",
     ["inputs", "histories"],
     "arbitrary power series (including gaps and temperature-maintenance series) and tariffs, and simulated annual runs",
     "Tests use constant power and simple tariffs; conservation over a year of changing power is not checked.",
     [O + "simulation/SimulationRun.py", O + "building/UtilityCostTracker.py"],
     [("annual cost and monthly breakdown accumulation", O + "simulation/SimulationRun.py")],
     ["get_annual_utility_cost", "get_monthly_cost_breakdown", "get_monthly_cost_breakdown_detailed", "get_monthly_energy_kwh", "get_total_energy_kwh"],
     "accounting monitor: independent re-summation of recorded series",
     "1e-9 relative.")

prop("P20", "Invalid input is rejected, never silently used",
     "Inputs the documentation rules out raise the documented error before any result is produced, and values on the valid side of each boundary are accepted: unknown building types, schematics, locations or heater models; non-positive or missing magnitudes; custom load shapes without exactly 24 non-negative hours summing to one (or, for custom-only buildings, normalisable to it); mixed-use lists that do not match; wrong gallons-per-person standards; missing loop or temperature-maintenance parameters; safety factors, off times and on/off temperatures that cannot work; load shifting on multi-pass systems; sizing without an inlet temperature; results asked of a system never sized; and tariffs or tariff files with gaps, overlaps, wrong lengths or unreadable values.",
     ["inputs", "configurations"],
     "mutations of valid inputs, one documented rule broken at a time, values on both sides of each boundary",
     "Tests cover one invalid example per rule at most.",
     ["src/ecoengine/interfaces/EcosizerEngine.py", O + "building/Building.py", O + "components/heating/Controls.py", O + "building/UtilityCostTracker.py"],
     [("validation at construction", "src/ecoengine/interfaces/EcosizerEngine.py")],
     ["exceptions raised by constructors and methods"],
     "input-mutation monitor: accept/reject oracle per documented rule",
     "Only rules stated in documentation or error messages are checked.")

prop("P21", "The engine facade means what its parameters say",
     "Building the same installation through the one-call engine (any schematic name or alias, any way of giving location, any subset of optional parameters at their documented defaults) or by hand from its parts gives identical sizes, curves and simulations. "
     "Pre-sized volumes, capacities, heater counts and models are honoured as given, and an attached tariff prices that engine's runs.",
     ["inputs", "configurations"],
     "all schematics, aliases, parameter subsets, sized and pre-sized paths",
     "Tests call the facade with a few parameter sets; a parameter dropped on one path is invisible unless it is varied.",
     ["src/ecoengine/interfaces/EcosizerEngine.py"],
     [("parameter mapping of the facade", "src/ecoengine/interfaces/EcosizerEngine.py")],
     ["engine getters, simulate_3day, simulate_annual, curves"],
     "equivalence monitor: facade vs hand-assembled system",
     "Exact comparison of complete simulation records.")

prop("P22", "Catalogue queries are complete and consistent with the engine",
     "The lists of models, weather stations and the output-capacity and outdoor-temperature helpers return exactly the catalogued data: every listed model can be simulated, the filters (single- or multi-pass, commercial only, SGIP only, exclusions) select exactly the catalogued models they name, output capacity equals the map at the requested conditions times units and derate in the requested unit, and the 5-degree outdoor-temperature buckets hold every day of the year exactly once. "
     "Calls with none or several of the mutually exclusive location arguments are rejected.",
     ["inputs"],
     "all models and stations, all filters, locations given each way",
     "Tests check types and lengths only.",
     ["src/ecoengine/interfaces/EcosizerEngine.py", O + "components/heating/PerformanceMap.py", O + "building/ClimateZone.py"],
     [("catalogue helper functions", "src/ecoengine/interfaces/EcosizerEngine.py")],
     ["catalogue helper results"],
     "exhaustive catalogue monitor",
     "Golden catalogue is part of the specification.")

prop("P23", "Sizes respond to inputs in the right direction and proportion",
     "Doubling a building and its loop doubles the capacity and storage of single-pass, parallel-loop, return-to-primary and instantaneous systems, describing a building as two parts of the same type changes nothing, and turning a cyclic load shape around the clock leaves the size alone. "
     "Sizes move in the physically required direction: colder inlet water, hotter supply, more occupants or fewer run hours never shrink capacity; a higher aquastat never shrinks storage, hotter storage or a flatter day never enlarges it; capacity times defrost factor is constant; more loop loss means a proportionally larger loop element (or, for return-to-primary, more capacity); and load shifting never makes the plant smaller than the same plant held to the hours left over.",
     ["inputs", "configurations"],
     "pairs and chains of installations differing in one input",
     "Relations between runs are not stated by any test.",
     [DS + "DHWSystem.py", DS + "rtp_systems/SinglePassRTPSystem.py", DS + "recirc_systems/SwingSystem.py", DS + "recirc_systems/ParallelLoopSystem.py"],
     [("sizing formulas", DS + "DHWSystem.py")],
     ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"],
     "metamorphic monitor over related sizing runs",
     "Independent of the reference model.")

prop("P24", "Exports and plots show the recorded numbers",
     "A simulation exported to a file has one row per recorded step with the recorded values under the right headings, and plots show the recorded series (converted to the stated units), with load-shift windows shaded exactly where the schedule sheds or loads up; comparison and sizing-curve graphs show the computed values in order. "
     "Writing an export or drawing a plot alters nothing.",
     ["inputs", "configurations"],
     "runs of every schematic, full, stopped early and load-shifting; tariffs and pairs of runs",
     "Tests check that a file or figure exists and has some columns.",
     [O + "simulation/SimulationRun.py", O + "building/UtilityCostTracker.py", "src/ecoengine/interfaces/EcosizerEngine.py", DS + "DHWSystem.py"],
     [("to_csv, to_plotly, comparison graphs", O + "simulation/SimulationRun.py")],
     ["csv files", "plotly figure traces, shapes and slider steps"],
     "export read-back monitor",
     "Every row and trace point compared.")

prop("P25", "Design warnings flag exactly the control modes that would short-cycle",
     "Sizing a single-pass plant (without recirculation, parallel-loop or return-to-primary) through its class warns about exactly the control modes that cannot work well: one warning for each mode whose band between on- and off-sensor, at the sized storage, is heated from supply to storage temperature by the sized capacity in less than ten minutes, and one for each mode whose off-sensor lies above its on-sensor. Each warning names its mode, no other mode is mentioned, and the sizes are unaffected. "
     "Sizing the same plant again gives the same warnings, and a caller who turns them into errors finds the building and the run-hour setting unchanged.",
     ["inputs", "configurations"],
     "all sensor heights, load-shift and free mode names, storage sizes and capacities, including both sides of the ten-minute limit, first and repeated sizing",
     "Tests provoke one or two warnings at comfortable distances from the limit and never with several modes at once.",
     [DS + "DHWSystem.py"],
     [("_warn_if_short_cycling", DS + "DHWSystem.py")],
     ["UserWarning emitted while size()/from_size() runs"],
     "monitor of emitted warnings against an independent cycle-time model",
     "Sensor heights are tuned to within 1e-5 of the limit on both sides; the swing and multi-pass classes do not warn and are outside the statement.")


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, "vf", "checks", p["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "./setup.sh",
           "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors attach from outside through the public API", "source_commits": []},
           "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                       "technique": "runtime monitoring: " + p["technique"], "level": "exploration", "level_note": p["note"],
                       "evidence_file": f"evidence/{p['id']}.json"} for p in have],
           "not_applicable": [],
           "notes": "Runtime monitors in Python drive the real package from /repo/src; see DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    bad = [p["id"] for p in P if len(p["title"]) > 80]
    print(len(have), "of", len(P), "long titles:", bad)


if __name__ == "__main__":
    main()
