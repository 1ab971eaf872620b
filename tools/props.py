"""Single source of the property list: writes properties.jsonl and MANIFEST.json.

    python3 tools/props.py        (run from /verif)
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/ecoengine/"
B = S + "objects/building/"
D = S + "objects/dhwsystems/"
T = S + "objects/components/storage/"
H = S + "objects/components/heating/"
I = S + "interfaces/"
SIM = S + "objects/simulation/SimulationRun.py"

P = []


def p(pid, title, statement, over, text, why, files, mech, observe=(), note=None, tech=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=list(observe), note=note, tech=tech))


p("C01", "Timestep demand conserves the daily hot water use",
  "For every building, load shape, timestep length and start, the per-timestep hot water demand is non-negative, is the "
  "hour's fraction of the daily use spread evenly over the hour (peak or average shape as asked), wraps after the last "
  "hour of the shape, and the steps of one day of a 24-hour shape add up to the daily use. Annual buildings use the hour of the year, and "
  "switching between annual and daily mode changes the shapes but never the building's daily use.",
  ["inputs", "configurations"], "all load shapes, daily volumes, timesteps dividing an hour, step indices, both modes",
  "Tests read a few steps of the stock shapes; conservation quantifies over all shapes, timesteps and indices.",
  [B + "Building.py"], [("Building.get_dhw_load_supplyT_gal / set_to_annual_load_shape / set_to_daily_load_shape", B + "Building.py")],
  ["Building.get_dhw_load_supplyT_gal", "Building.daily_dhw_use_supplyT_gal"], tech="property-based testing: conservation oracle over generated shapes and steps")
p("C02", "Building types give the documented use and use-weighted blends",
  "A building created from a building type has daily use = magnitude x the published use per unit (for multi-family the given gallons per day per "
  "person, or those of the named standard; the Californian standard takes the 98th percentile day of the given bedroom mix), and the stock load shapes "
  "unless custom ones are given. A building without type takes its custom shape, normalised, and its magnitude (or the total of the unnormalised shape) as daily use. "
  "A mixed-use building's daily use is the sum of its parts and each hour's demand is the sum of the parts' demands, in whatever order the parts are listed.",
  ["inputs", "configurations"], "all building types, magnitudes, gpdpp values and names, unit mixes, custom shapes, and lists of them",
  "Tests sample a few types and one blend; blending quantifies over all combinations.",
  [B + "Building.py"], [("Building.from_building_type", B + "Building.py")], ["Building.daily_dhw_use_supplyT_gal"],
  tech="property-based testing: reference model of building construction, exhaustive over types")
p("C03", "Invalid building inputs are rejected, valid ones accepted",
  "Whatever combination of inputs is given, a building with wrong-length, negative or non-normalised load shapes, unknown type, "
  "non-positive magnitude or inconsistent lists raises the documented error instead of producing a building; every "
  "well-formed input is accepted.",
  ["inputs"], "well-formed constructor inputs and every single-fault mutation of them",
  "Tests reject single examples; rejection must hold for every malformed value in every argument and list position.",
  [B + "Building.py"], [("Building validation", B + "Building.py")], ["Building(...)", "Building.from_building_type"],
  tech="property-based testing: fault-injected valid inputs, accept/reject oracle")
p("C04", "Climate lookups return the data of the requested place and time",
  "For every climate zone, zip code and weather station, the design temperatures, hourly outdoor air and monthly inlet water "
  "temperatures returned for any timestep of the year are the stored ones of that place and hour or month; "
  "the design values are the coldest outdoor hour and the coldest inlet month; an unknown place is an error, never "
  "another place's data. Given design conditions are returned unchanged at any time.",
  ["inputs", "configurations"], "all zones, all zip codes, all stations, all hours and timesteps",
  "Tests look up a handful of zones and hours.", [B + "ClimateZone.py"],
  [("ClimateZone.from_zone_id / from_zip_code / from_weather_station / get_*", B + "ClimateZone.py")], ["ClimateZone getters"],
  tech="property-based testing: differential against the raw data files, exhaustive over places")
p("C05", "Primary plant sizing covers the design day exactly",
  "For every load shape, use, temperatures, run hours, defrost factor and aquastat, the sized heating capacity makes the "
  "day's hot water in the allowed run hours, and the sized storage is the smallest whose usable share above the aquastat "
  "covers the worst run of hours when demand outpaces generation, runs across midnight included. The built plant has exactly that capacity and volume, and a warning is given exactly when the aquastats are set too close together.",
  ["inputs"], "all design problems with inlet < supply < storage, run hours up to 24 and aquastats that leave usable volume",
  "Tests compare a handful of regression numbers.", [D + "DHWSystem.py"],
  [("DHWSystem.size / from_size", D + "DHWSystem.py")], ["get_minimum_capacity_kbtuh", "get_minimum_storage_storageT_gal"],
  tech="property-based testing: differential against an independent sizing model and a day-balance invariant")
p("C06", "Sizing responds consistently when the design problem changes",
  "Scaling the use scales the plant; rotating the day changes nothing; fewer run hours, colder inlet, "
  "more defrost or more recirculation raise the capacity by exactly the physical ratio, a higher aquastat never needs less storage, hotter storage never more; "
  "splitting a building into uses leaves the plant the same.",
  ["inputs"], "pairs of related design problems for the storage systems with a stratified primary",
  "A relation between two runs for all inputs is not a sample of outputs.", [D + "DHWSystem.py", D + "recirc_systems/ParallelLoopSystem.py",
   D + "rtp_systems/SinglePassRTPSystem.py", B + "Building.py"],
  [("DHWSystem.size", D + "DHWSystem.py")], ["get_minimum_*"], tech="property-based testing: metamorphic relations")
p("C07", "Every point of the sizing curve is a plant that sizes",
  "The primary sizing curve is the trade-off of the sized plant: each point is the storage and capacity the same system "
  "gets when sized for that point's run hours (a multi-pass point with a shorter capacity trial), run hours fall from 24 in the given steps until no plant can follow the load, capacity rises and storage falls "
  "along it for plants without a swing tank, and the "
  "recommended index is the point of the run hours the system was sized with. Computing the curve leaves the sized plant unchanged.",
  ["inputs"], "all design problems, for no-recirc, parallel loop, swing, single- and multi-pass return-to-primary plants",
  "Tests check lengths and a few points of one or two curves.",
  [D + "DHWSystem.py", D + "recirc_systems/SwingSystem.py", D + "rtp_systems/MultiPassRTPSystem.py"],
  [("get_sizing_curve", D + "DHWSystem.py")], ["get_sizing_curve"],
  tech="property-based testing: curve points against independent re-sizing")
p("C08", "Load-shift sizing rides through the shed period",
  "For every shed/load-up schedule and control set, the load-shift plant has at least the capacity and "
  "volume of a normal plant limited to the non-shed hours, enough storage between its load-up and shed aquastats to cover the "
  "shed-period draw of the covered share of days and the worst deficit that follows the first shed block, and enough capacity to charge in the load-up hours. The "
  "load-shift curve reports that sizing for each percent of days from 25 to 100, with the recommended index at the requested percent; a curve asked for without shed controls is an error.",
  ["inputs", "configurations"], "all schedules with one or two shed blocks, load-up lengths 0-6, control sets, percents 0.25-1, all load shapes",
  "Tests compare a few regression numbers of a few schedules.", [D + "DHWSystem.py", D + "rtp_systems/SinglePassRTPSystem.py",
   D + "recirc_systems/SwingSystem.py", I + "EcosizerEngine.py"],
  [("DHWSystem load-shift sizing", D + "DHWSystem.py")], ["get_minimum_*", "get_ls_sizing_curve"],
  tech="property-based testing: differential against an independent load-shift model")
p("C09", "Recirculation loss and parallel-loop TM sizing follow the loop",
  "For every loop flow, temperatures and safety factor, the recirculation loss is the loop's heat loss, the temperature-maintenance "
  "heater is that loss times the safety factor, the TM tank rides through the off time within its dead band, and infeasible "
  "TM parameters are rejected. The number of TM heaters divides but never changes the total.",
  ["inputs"], "all loop flows, return temperatures, TM set points, safety factors, off times, heater counts, valid and invalid",
  "Tests sample a few loops.", [D + "recirc_systems/ParallelLoopSystem.py", D + "recirc_systems/RecircSystem.py"],
  [("ParallelLoopSystem TM sizing", D + "recirc_systems/ParallelLoopSystem.py")],
  ["get_minimum_tm_volume_gal", "get_minimum_tm_capacity_kbtuh", "get_recirc_loss_kbtuh", "get_daily_recirc_loss_kbtu"], tech="property-based testing: closed-form oracle, accept/reject fuzzing")
p("C10", "Swing tank systems are sized for loop loss and swing mixing",
  "For every design problem the swing tank volume is the smallest catalogue size meeting both the loop-loss and peak-draw "
  "needs, the swing heater is the loop loss times the safety factor, and the primary plant covers the day as it is drawn through the "
  "swing tank held at or above supply temperature by its element. Loops too large for every catalogue tank are rejected.",
  ["inputs"], "all loads, loops and temperatures for which a catalogue size exists, with and without load shift",
  "Tests compare few regression numbers.", [D + "recirc_systems/SwingSystem.py"],
  [("SwingSystem sizing", D + "recirc_systems/SwingSystem.py")], ["get_minimum_*", "get_minimum_tm_*", "get_minimum_tm_ca_volume_gal"],
  tech="property-based testing: differential against an independent minute-by-minute swing model")
p("C11", "Return-to-primary plants include the recirculation load",
  "Single-pass RTP capacity is the hot water capacity plus the loop loss recovered within the run hours, and its storage is the "
  "primary storage; multi-pass RTP capacity and storage cover the hot water and recirculation draw of the design day through the mixing valve, "
  "and multi-pass plants whose sensors sit below the usable region or that ask for load shifting are rejected.",
  ["inputs"], "all loads, loops and temperatures in the sizing domain", "Tests compare few regression numbers.",
  [D + "rtp_systems/SinglePassRTPSystem.py", D + "rtp_systems/MultiPassRTPSystem.py", D + "rtp_systems/RTPSystem.py"],
  [("RTP sizing", D + "rtp_systems/RTPSystem.py")], ["get_minimum_*"],
  tech="property-based testing: differential against independent RTP models")
p("C12", "The stratified tank moves and conserves heat and volume",
  "Through any sequence of heating, draws, recirculation and re-initialisation, the stratified tank's temperature profile is "
  "non-decreasing with height, stays between inlet and outlet temperature, shifts by exactly the heat added or removed, a draw at supply temperature takes the volume whose heat equals the draw's, the average draw temperature is that of the drawn water, and the usable "
  "volume is the volume at or above supply temperature.",
  ["histories", "inputs"], "all sequences of tank operations with arbitrary magnitudes", "Tests apply single operations to a fixed tank.",
  [T + "StratifiedTank.py"], [("StratifiedTank operations", T + "StratifiedTank.py")],
  ["StratifiedTank.get_temperature_at_fraction", "get_usable_volume_supplyT_gal", "get_average_draw_temp_f", "draw_physical_gal"], tech="property-based testing: model-based operation histories")
p("C13", "The mixed tank conserves energy",
  "Through any sequence of draws, heating, mixing and recirculation, the mixed tank's temperature follows the volume- and heat-weighted balance, its "
  "usable volume is all or nothing by supply temperature, and its temperature is the same at every height.",
  ["histories", "inputs"], "all sequences of tank operations", "Tests apply single operations to a fixed tank.",
  [T + "MixedStorageTank.py"], [("MixedStorageTank operations", T + "MixedStorageTank.py")], ["MixedStorageTank"],
  tech="property-based testing: model-based operation histories")
p("C14", "The multi-pass tanks account for slug, stratified part and heat",
  "Through any sequence of draws and heating, the energy tank's profile holds exactly the stored heat, and the slug tank tracks its cold slug's volume and temperature by "
  "heat balance, merges the slug's heat and the water above it back into stored energy when the slug ends, never reports volume outside the tank, and reports temperatures and usable volume of the combined profile.",
  ["histories", "inputs"], "all sequences of tank operations", "Tests apply single operations to a fixed tank.",
  [T + "EnergyTank.py", T + "SlugOverlayTank.py"], [("EnergyTank / SlugOverlayTank", T)], ["EnergyTank", "SlugOverlayTank"],
  tech="property-based testing: model-based operation histories")
p("C16", "Performance maps return the rated data and interpolate between",
  "For every catalogue model, the output capacity and power at a rated point are the stored data, in between they are interpolated linearly between the "
  "surrounding rated data (or follow the model's stored polynomials), out-of-range conditions follow the documented nearest-point or resistance fallback, and capacity and power scale "
  "with the number of units. Fixed-capacity heaters deliver exactly their capacity.",
  ["inputs", "configurations"], "all catalogue models, all operating conditions, unit counts", "Tests sample a few models and points.",
  [H + "PerformanceMap.py", H + "WaterHeater.py"], [("PerformanceMap lookups", H + "PerformanceMap.py")],
  ["PerformanceMap.get_capacity_kbtuh", "get_power_in_kw"], tech="property-based testing: differential against raw performance data and interpolation bounds")
p("C17", "Utility rates apply to the right hour and survive a CSV round trip",
  "For every utility tariff, the energy rate and demand period of any timestep are those of its month and hour (peak over discount over off-peak, windows that wrap midnight included), and incomplete, overlapping or "
  "out-of-range definitions are rejected; writing the tariff to CSV and reading it back charges the same rates in every hour.",
  ["inputs", "configurations"], "all single- and multi-period tariffs, all hours and timesteps", "Tests use two or three tariffs and a few steps.",
  [B + "UtilityCostTracker.py"], [("UtilityCostTracker lookups and CSV", B + "UtilityCostTracker.py")],
  ["UtilityCostTracker.get_*", "to_csv / from_csv"], tech="property-based testing: reference tariff model and CSV round trip")
p("C18", "Bills and energy totals account for every kWh once",
  "For every simulation record and tariff, the annual cost is the energy charges of every timestep plus each month's demand charges per period plus the fixed "
  "charges, the monthly breakdowns add up to it, monthly and total energy are the recorded powers (temperature maintenance included) times time.",
  ["inputs", "histories"], "all power histories, tariffs, zones", "Tests use constant powers.",
  [SIM, B + "UtilityCostTracker.py"], [("SimulationRun cost and energy accessors", SIM)],
  ["SimulationRun.get_annual_utility_cost", "get_monthly_cost_breakdown", "get_monthly_cost_breakdown_detailed", "get_monthly_energy_kwh"], tech="property-based testing: independent billing of generated records")
p("C19", "Results do not depend on earlier runs and inputs stay untouched",
  "Sizing, simulating, plotting and reporting are functions of their inputs: repeating any of them, in any order and any number of times on the same objects, gives "
  "identical results, changes no input object or sizing result, and prints nothing to the console.",
  ["histories", "configurations"], "all systems and all sequences of size / simulate / curve / report calls", "Tests call each once.",
  [I + "EcosizerEngine.py", I + "Simulator.py", D + "DHWSystem.py"], [("Simulator.simulate", I + "Simulator.py")],
  ["EcosizerEngine", "Simulator"], tech="property-based testing: stateful call histories against fresh-instance results")
p("C20", "A simulation record reports what happened, step by step",
  "Every simulation starts from storage charged to its normal aquastat with all heaters off, and its record has one entry per timestep of demand, usable volume, tank temperatures, heater output and power, outdoor and inlet temperature equal to the "
  "conditions of that step; its totals, outage counts and failure messages follow from the entries, the CSV export contains exactly them, and the run stops early only on a sustained low delivery temperature.",
  ["histories", "configurations"], "all systems, loads, climates and durations", "Tests check lengths and a few values.",
  [SIM, I + "Simulator.py"], [("SimulationRun", SIM)], ["SimulationRun accessors", "export CSV"],
  tech="property-based testing: invariants over generated histories and export round trip")
p("C21", "Heaters obey their aquastats and the load-shift schedule",
  "At every timestep each heater turns on only when its on sensor is below its trigger, turns off only when its off sensor is above its trigger, and keeps its state otherwise, using the control set "
  "the schedule assigns to that hour; a heater that is off delivers and consumes nothing.",
  ["histories", "schedules"], "all controls, schedules and tank temperature histories", "Tests step fixed temperatures.",
  [H + "WaterHeater.py", H + "Controls.py"], [("WaterHeater.update_state / Controls", H + "WaterHeater.py")],
  ["WaterHeater.is_on", "Controls.should_turn_on/off"], tech="property-based testing: model-based control histories")
p("C22", "Recirculation systems simulate loop losses and TM heating right",
  "In every simulated step of a parallel-loop or swing system, the loop loss leaves the temperature-maintenance tank, the TM heater follows its set points and its heat enters "
  "that tank, the swing tank is fed by and supplies the building through mixing to supply temperature, and the recorded powers, temperatures and volumes are those of that heat balance.",
  ["histories", "inputs"], "all loads, loops, controls and plants, sized or presized", "Tests check a few summary numbers.",
  [D + "recirc_systems/ParallelLoopSystem.py", D + "recirc_systems/SwingSystem.py"],
  [("simulate_step", D + "recirc_systems")], ["SimulationRun records"], tech="property-based testing: lockstep reference simulation")
p("C23", "Primary and single-pass RTP simulation balances heat every step",
  "In every simulated step of a primary or single-pass return-to-primary system, running heaters add exactly their output for the step's conditions, the demand (and, with return-to-primary, the loop loss) removes exactly its heat, and the "
  "recorded tank temperatures, usable volume, output and power are those of that heat balance.",
  ["histories", "inputs"], "all loads, controls, schedules, climates and plants, sized or presized", "Tests check a few summary numbers.",
  [D + "DHWSystem.py", D + "rtp_systems/SinglePassRTPSystem.py"], [("simulate_step", D + "DHWSystem.py")],
  ["SimulationRun records"], tech="property-based testing: lockstep reference simulation")
p("C24", "Multi-pass RTP simulation balances heat every step",
  "In every simulated step of a multi-pass return-to-primary system the mixing valve draws what keeps delivery at supply temperature (everything, when the tank is not warmer than supply), the tank receives the blended make-up and return water and the heaters' output, "
  "and the recorded temperatures, usable volume, output and power are those of that heat balance.",
  ["histories", "inputs"], "all loads, loops, controls and plants", "Tests check a few summary numbers.",
  [D + "rtp_systems/MultiPassRTPSystem.py", D + "utils.py"], [("simulate_step, mixing valve", D + "rtp_systems/MultiPassRTPSystem.py")],
  ["SimulationRun records"], tech="property-based testing: lockstep reference simulation")
p("C25", "The engine builds exactly the system its arguments describe",
  "For every accepted combination of documented engine arguments, sizing results, curves and simulations equal those of the building, climate, tariff, controls and system constructed directly with the documented meaning and defaults of those arguments; "
  "undocumented or contradictory arguments raise an error.",
  ["configurations", "inputs"], "all schematics, place specifications, building specifications, load-shift, presized and control arguments", "Tests cover one configuration per schematic.",
  [I + "EcosizerEngine.py"], [("EcosizerEngine.__init__", I + "EcosizerEngine.py")], ["EcosizerEngine"],
  tech="property-based testing: differential between engine and directly built objects")
p("C26", "Swing ER trade-off elements make up exactly the missing heat",
  "For every presized swing plant, the sized electric resistance element is the worst heat shortfall of the peak design days with its safety factor, never negative, and added to the swing heater; "
  "each point of the trade-off curve is the total element needed at that share of the load, its 100 % point is the sized plant, and the primary sizing curve is that of the plain swing plant. Computing curves leaves the system unchanged.",
  ["inputs"], "all loads, loops and presized plants", "Tests check one plant.",
  [D + "recirc_systems/SwingERTrdOffSystem.py"], [("SwingERTrdOffSystem", D + "recirc_systems/SwingERTrdOffSystem.py")],
  ["get_er_capacity_kbtuh", "get_er_capacity_kw", "get_er_sized_points", "get_er_sizing_curve"], tech="property-based testing: differential against an independent two-day minute model")
p("C27", "Annual mode changes neither sizing nor the building",
  "Sizing a building in annual mode, or computing its curves, gives the same plant and points as in daily mode for every system, and leaves the building in the mode, with the load shapes, it had before, also when the call fails.",
  ["histories", "configurations"], "all systems, building types and size / curve / simulate sequences, failing ones included", "Tests size annual buildings once.",
  [D + "DHWSystem.py", B + "Building.py", D + "recirc_systems/SwingSystem.py"], [("size: annual switch and restore", D + "DHWSystem.py")],
  ["Building.is_annual_load_shape", "get_minimum_*"], tech="property-based testing: differential daily/annual and before/after histories")
p("C28", "Figures plot the numbers the engine returns",
  "Every figure the package returns shows exactly the underlying data: sizing and trade-off curves their points with the recommended point marked, simulation plots the recorded series, cost and comparison plots the monthly totals.",
  ["inputs"], "all systems and records", "Tests check that a figure is returned.",
  [D + "DHWSystem.py", D + "utils.py", SIM, I + "EcosizerEngine.py"], [("plot functions", SIM)], ["returned figures"],
  tech="property-based testing: figure data against recorded data")
p("C29", "Optional inputs left out take their documented defaults",
  "At every entry point of the sizing, simulation, tank, heater, tariff and building objects, leaving an optional argument out gives exactly the result of passing its documented default value (run hours, defrost and safety factors, stratification slopes, curve steps, intervals, units, months, stop limits).",
  ["inputs", "configurations"], "all designs and all subsets of omitted optional arguments", "Tests pass most arguments explicitly and compare no omitted one.",
  [D + "DHWSystem.py", D + "recirc_systems/SwingSystem.py", D + "recirc_systems/ParallelLoopSystem.py", D + "rtp_systems/MultiPassRTPSystem.py", SIM], [("constructors and factories", D + "DHWSystem.py")],
  ["constructors, from_size, size, get_sizing_curve, simulate_step"], tech="property-based testing: differential, argument omitted against documented value")
p("C30", "Catalogue helpers list exactly the matching models and stations",
  "The catalogue queries return exactly the models, zones and stations that satisfy the given filters, and the stand-alone capacity helper gives the same output as the performance map it names, derated and multiplied as asked.",
  ["inputs", "configurations"], "all filter combinations, all models and conditions", "Tests call each once.",
  [I + "EcosizerEngine.py", H + "PerformanceMap.py"], [("get_list_of_models, get_weather_stations, get_hpwh_output_capacity, get_oat_buckets", I + "EcosizerEngine.py")],
  ["module functions"], tech="property-based testing: exhaustive filters against raw catalogue data")
p("C31", "Instantaneous systems meet the peak flow without storage",
  "For every load, the instantaneous heater is sized for the peak hour's flow at the design inlet temperature, delivers in every simulated step exactly the step's demand, and reports no stored volume or outages while its capacity suffices.",
  ["inputs", "histories"], "all loads, temperatures and climates", "Tests check one load.",
  [D + "InstantWHSystem.py"], [("InstantWHSystem", D + "InstantWHSystem.py")], ["get_minimum_capacity_kbtuh", "SimulationRun records"],
  tech="property-based testing: closed-form and lockstep oracle")


def main():
    have, miss = [], []
    for q in P:
        (have if os.path.exists(os.path.join(ROOT, "checks", q["id"].lower() + ".py")) else miss).append(q)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({
                "id": q["id"], "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["text"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": [x for x in q["files"]],
                            "mechanism": [{"name": n, "where": w} for n, w in q["mech"]],
                            "observe_at": q["observe"], "hook_needed": None}}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash run.sh --selftest",
        "checks": [{
            "property": q["id"], "quick_cmd": f"bash run.sh {q['id']} quick",
            "thorough_cmd": f"bash run.sh {q['id']} thorough",
            "technique": q["tech"], "level": "exploration",
            "level_note": q["note"] or "Seeded hypothesis search against the real code in /repo/src with an independent oracle in "
                                       "/verif/harness/ref.py or the check; no proof: inputs outside the generated domain are not covered.",
        } for q in have],
        "not_applicable": [{"property": q["id"], "reason": "check not built yet"} for q in miss],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        for x in q["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x


if __name__ == "__main__":
    main()
