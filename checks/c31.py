"""C31: instantaneous systems meet the peak flow without storage."""
from hypothesis import strategies as st

from checks.c07 import snap
from harness import plants, ref, systems
from harness.core import Sub, require, require_close
from harness.gen import num

PROPERTY = "C31"
RULE = ("Cases: loads, temperatures, defrost factors, fixed or hourly climates, daily and annual buildings. Oracle: closed form (peak hour's flow lifted "
        "from design inlet to supply temperature; every step's demand lifted from that step's inlet). Non-trivial: a peak hour at least twice the mean.")


@st.composite
def case(draw):
    c = draw(systems.instant_case())
    c["b"]["inlet"] = draw(num(33, 79))
    c["dur"] = draw(st.sampled_from(["3day", "3day", "3day", "annual"])) if draw(st.integers(0, 5)) == 0 else None
    return c


def check(c):
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.interfaces.Simulator import simulate
    b, p = c["b"], c["p"]
    bld = plants.mk_building(b)
    inlet = bld.get_design_inlet_water_temp_f()
    before = snap(bld)
    s = InstantWHSystem.from_size(bld, p["supply"], p["storage"], defrost_factor=c["defrost"])
    cap = b["daily"] * max(b["peak"]) * ref.RHO_CP * (p["supply"] - inlet) / c["defrost"] / 1000.0
    require_close(s.get_minimum_capacity_kbtuh(), cap, "sized capacity", 1e-9, 1e-9)
    require(s.get_minimum_storage_storageT_gal() == 0, f"storage {s.get_minimum_storage_storageT_gal()} gal")
    t = InstantWHSystem(p["supply"], p["storage"], c["defrost"])
    t.size(bld)
    require_close(t.get_minimum_capacity_kbtuh(), cap, "capacity of size()", 1e-9, 1e-9)
    require(snap(bld) == before, "sizing changed the building")
    env = plants.Env(b)
    first = c["start"] * 1440 // c["ts"]

    def step(i, ts, r, what):
        d, oat, inl, _ = env.at(i, ts, False)
        require_close(r["demand_supplyT_gal"], d, f"{what}: demand", 1e-9, 1e-9)
        require_close(r["oat_f"], oat, f"{what}: outdoor temperature", 1e-9, 1e-9)
        require_close(r["inlet_water_temp_f"], inl, f"{what}: inlet temperature", 1e-9, 1e-9)
        q = d * 60.0 / ts * ref.RHO_CP * max(p["supply"] - inl, 1.0) / c["defrost"] / 1000.0
        require_close(r["heater_output_kbtuh"], q, f"{what}: output", 1e-9, 1e-9)
        require_close(r["heater_power_in_kw"], q / 3.412142, f"{what}: power", 1e-6, 1e-9)
        require(r["usable_volume_supplyT_gal"] == 0, f"{what}: stored volume")
        require(len(r["tank_temps_f"]) == 6 and all(abs(x - p["supply"]) < 1e-9 for x in r["tank_temps_f"]), f"{what}: temperatures {r['tank_temps_f']}")
        require(r["mode"] == "normal", f"{what}: mode {r['mode']}")
        if inl >= inlet:
            require(r["heater_output_kbtuh"] <= cap * (1 + 1e-9) + 1e-9 or p["supply"] - inl < 1.0, f"{what}: output above the sized capacity")
    for k in range(c["n"]):
        i = first + k
        if i * c["ts"] >= 525600:
            break
        step(i, c["ts"], s.simulate_step(bld, i, c["ts"]), f"step {i} ({c['ts']} min)")
    if c["dur"]:
        run = simulate(s, bld, duration=c["dur"])
        ts, n = (1, 4320) if c["dur"] == "3day" else (10, 52560)
        require(len(run.heater_output_kbtuh) == n and not run.stopped_early, f"{c['dur']} run of {len(run.heater_output_kbtuh)} steps")
        require(run.is_successful() and run.outage_minutes == 0, "outage of a system without storage")
        for i in range(0, n, 7):
            step(i, ts, {"demand_supplyT_gal": run.dhw_demand_supplyT_gal[i], "oat_f": run.oat_f[i], "inlet_water_temp_f": run.inlet_water_temp_f[i],
                         "heater_output_kbtuh": run.heater_output_kbtuh[i], "heater_power_in_kw": run.heater_power_in_kw[i],
                         "usable_volume_supplyT_gal": run.usable_volume_supplyT_gal[i], "tank_temps_f": [x[i] for x in run.tank_temps_f],
                         "mode": run.heater_mode[i]}, f"{c['dur']} step {i}")
        kwh = sum(run.heater_power_in_kw) * ts / 60.0
        require_close(run.get_total_energy_kwh(), kwh, "energy of the run", 1e-9, 1e-9)
        if "zone" not in b:
            days = 3 if c["dur"] == "3day" else 365
            want = b["daily"] * days * ref.RHO_CP * (p["supply"] - b["inlet"]) / c["defrost"] / 1000.0 / 3.412142
            require_close(kwh, want, "energy of the run = heat of the water", 1e-6, 1e-9)
    return max(b["peak"]) >= 2 / 24, (c["dur"],) if c["dur"] else ()


# ------------------------------------------------------------------ annual buildings (stock shapes)
@st.composite
def annual_case(draw):
    return {"type": "multi_family", "std": draw(st.sampled_from([None, "ashLow", "ashMed", "ecoMark"])),
            "mag": draw(num(1, 400)), "zone": draw(st.integers(1, 96)), "supply": draw(num(105, 135)), "defrost": draw(st.one_of(st.just(1.0), num(0.5, 1)))}


def check_annual(c):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.building.ClimateZone import ClimateZone
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem

    def mk(annual):
        kw = {} if c["std"] is None else {"standard_gpd": c["std"]}
        return Building.from_building_type(c["type"], c["mag"], ClimateZone.from_zone_id(c["zone"]), annual=annual, **kw)
    b0, b1 = mk(False), mk(True)
    if not b1.is_annual_load_shape():
        return False
    s0 = InstantWHSystem.from_size(b0, c["supply"], c["supply"] + 20, c["defrost"])
    before = snap(b1)
    s1 = InstantWHSystem.from_size(b1, c["supply"], c["supply"] + 20, c["defrost"])
    require_close(s1.get_minimum_capacity_kbtuh(), s0.get_minimum_capacity_kbtuh(), "annual and daily sizing", 1e-9, 1e-9)
    require(snap(b1) == before, "sizing changed the annual building")
    return True


SUBS = [
    Sub("instant", case(), check, quick=1200, thorough=15000, shards=8),
    Sub("annual", annual_case(), check_annual, quick=40, thorough=600, shards=4),
]
