"""C25: the engine builds exactly the system its arguments describe."""
from hypothesis import strategies as st

from checks import c02, c04, c17, c28, c30
from harness import plants, ref
from harness.core import Skip, Sub, expect_raises, require, require_close, require_seq_close
from harness.gen import BUILDING_TYPES, load_shape, num

PROPERTY = "C25"
RULE = ("Cases: engine arguments (every optional one possibly left out), all schematics under all their names, places by zip, zone, station and design conditions, single, mixed and custom "
        "buildings, load-shift schedules, tariffs, sized and presized plants, missing and contradictory arguments. Oracle: building, climate, controls and system constructed directly from the "
        "documented meaning and defaults of those arguments; sizes, curves, 3-day and annual simulations, plots, summaries compared. Non-trivial: at least three optional arguments given.")
NAMES = {"primary": ("primary_no_recirc", "singlepass_norecirc"), "parallel": ("parallel_loop", "paralleltank"), "swing": ("swing_tank", "swingtank"),
         "sprtp": ("single_pass_rtp", "sprtp"), "mprtp": ("multi_pass_rtp", "mprtp"), "instant": ("instant_wh",)}
RECIRC = ("parallel", "swing", "sprtp", "mprtp")
DEFAULT = dict(gpdpp=None, custom_peak_load_shape=None, custom_avg_load_shape=None, num_heaters=1, hpwh_model=None, max_daily_run_hr=16.0, defrost_factor=1.0, aquastat_fract=0.5,
               off_sensor_fract=0.1, on_trigger_t_f=None, off_trigger_t_f=None, load_shift_schedule=None, load_up_hours=0, shed_aquastat_fract=None, load_up_aquastat_fract=None,
               shed_off_sensor_fract=None, load_up_off_sensor_fract=None, load_up_off_trigger_t_f=None, load_shift_percent=0.95, return_temp_f=None, return_flow_gpm=None,
               tm_on_temp_f=None, tm_off_temp_f=None, tm_off_time_hr=0.5, tm_safety_factor=1.75, storage_volume_storageT_gal=None, heating_capacity_kbtuh=None, tm_storage_vol=None,
               tm_capacity_kbtuh=None, tm_model=None, num_tm_heaters=1)


# ------------------------------------------------------------------------ generated cases
@st.composite
def place(draw, oat=False):
    k = draw(st.sampled_from(["dict", "dict", "zone", "zip", "zip", "station"]))
    if k == "dict":
        d = {"design_inlet_water_temp_f": draw(num(36, 62))}
        if oat or draw(st.integers(0, 3)):
            d["design_oat_f"] = draw(num(10, 60))
        return d
    if k == "zone":
        return draw(st.integers(1, 96))
    if k == "zip":
        z = draw(st.sampled_from([z for z, _ in c04._table("ZipCode_ClimateZone_Lookup.csv")]))
        return int(z) if draw(st.booleans()) else z
    return draw(st.sampled_from([s for s, _ in c30.stations()]))


def per_unit(t):
    return 25.0 if t == "multi_family" else c02.GPD.get(t, 1.0)


@st.composite
def bld_args(draw, kw, gallons):
    """building arguments for about `gallons` a day"""
    k = draw(st.sampled_from(["mf", "mf", "type", "multi", "custom"]))
    if k in ("mf", "type"):
        t = "multi_family" if k == "mf" else draw(st.sampled_from(BUILDING_TYPES))
        g = per_unit(t)
        if draw(st.booleans()):
            kw["gpdpp"] = draw(num(12, 40))
            g = kw["gpdpp"] if t == "multi_family" else g
        kw["building_type"] = t
        m = gallons / g
        kw["magnitude"] = max(1, int(m)) if draw(st.booleans()) else m
        if draw(st.integers(0, 2)) == 0:
            kw["custom_peak_load_shape"] = draw(load_shape())
        if draw(st.integers(0, 2)) == 0:
            kw["custom_avg_load_shape"] = draw(load_shape())
    elif k == "multi":
        ts = draw(st.lists(st.sampled_from(BUILDING_TYPES), min_size=2, max_size=3))
        kw["building_type"] = ts
        kw["magnitude"] = [gallons / len(ts) / per_unit(t) * draw(num(0.5, 1.5)) for t in ts]
        if draw(st.booleans()):
            kw["gpdpp"] = draw(num(12, 40))
        if draw(st.booleans()):
            kw["custom_peak_load_shape"] = [draw(st.one_of(st.none(), load_shape())) for _ in ts]
    else:
        kw["building_type"] = None
        kw["magnitude"] = gallons
        kw["custom_peak_load_shape"] = draw(load_shape())
        if draw(st.booleans()):
            kw["custom_avg_load_shape"] = draw(load_shape())


@st.composite
def case(draw, kinds=("primary", "parallel", "swing", "sprtp", "instant"), sized=None):
    kind = draw(st.sampled_from(list(kinds)))
    supply = draw(num(110, 128))
    storage = supply + draw(num(10, 40))
    gallons = draw(num(300, 6000))
    kw = {"zip_code_or_climate_zone": draw(place(kind == "mprtp")), "supply_temp_f": supply, "storage_temp_f": storage, "schematic": draw(st.sampled_from(NAMES[kind]))}
    draw(bld_args(kw, gallons))

    def opt(name, s, often=2):
        if draw(st.integers(0, often)):
            kw[name] = draw(s)
    opt("num_heaters", st.integers(1, 4))
    opt("max_daily_run_hr", num(12, 20))
    opt("defrost_factor", num(0.7, 1))
    opt("aquastat_fract", num(0.25, 0.6), 3)
    on = kw.get("aquastat_fract", 0.5)
    opt("off_sensor_fract", st.one_of(num(0.0, min(on, 0.24)), num(0.0, on)))
    opt("on_trigger_t_f", num(supply - 8, supply + 5))
    opt("off_trigger_t_f", num(storage - 6, storage))
    if kind != "instant" and draw(st.booleans()):
        if kind != "mprtp" and draw(st.integers(0, 9)):
            s0 = draw(st.integers(1, 20))
            n = draw(st.integers(1, min(6, 23 - s0)))
            sched = [0 if s0 <= h < s0 + n else 1 for h in range(24)]
            if draw(st.integers(0, 3)) == 0 and s0 + n < 22:
                for h in range(s0 + n + 1, min(24, s0 + n + 1 + draw(st.integers(1, 3)))):
                    sched[h] = 0
        else:
            sched = [1] * 24
        kw["load_shift_schedule"] = sched
        opt("load_up_hours", st.integers(0, 5))
        opt("shed_aquastat_fract", num(on, 0.9), 4)
        opt("load_up_aquastat_fract", num(0.2, on))
        opt("shed_off_sensor_fract", num(0.0, 0.5))
        opt("load_up_off_sensor_fract", num(0.0, 0.2))
        opt("load_up_off_trigger_t_f", num(supply, storage + 10))
        opt("load_shift_percent", st.one_of(num(0.3, 1.0, 2), num(0.3, 1.0, 2), num(0.001, 0.3, 3)))
    if kind in RECIRC or draw(st.integers(0, 7)) == 0:
        kw["return_temp_f"] = supply - draw(num(3, 10))
        kw["return_flow_gpm"] = gallons * draw(num(0.0005, 0.0016))
    opt("tm_on_temp_f", num(supply - 8, supply + 2))
    on_t = kw.get("tm_on_temp_f", supply)
    if draw(st.booleans()):
        kw["tm_off_temp_f"] = on_t + draw(num(4, 12))
    opt("tm_off_time_hr", num(0.3, 0.8))
    opt("tm_safety_factor", num(1.1, 2.5))
    opt("num_tm_heaters", st.integers(1, 3))
    if draw(st.integers(0, 9)) == 0:
        kw["hpwh_model"] = draw(st.sampled_from(plants.sp_models()))
    if sized is False or (sized is None and draw(st.booleans())):
        vol = gallons * draw(num(0.08, 0.5))
        kw["storage_volume_storageT_gal"] = vol
        if kind == "mprtp" and "load_shift_schedule" in kw and draw(st.integers(0, 3)):
            s0 = draw(st.integers(1, 20))  # only a sized multi-pass plant has to stay all-normal
            n = draw(st.integers(1, min(6, 23 - s0)))
            kw["load_shift_schedule"] = [0 if s0 <= h < s0 + n else 1 for h in range(24)]
        if draw(st.integers(0, 2)) == 0:
            kw["hpwh_model"] = draw(st.sampled_from(plants.mp_models() if kind == "mprtp" else plants.sp_models()))
        else:
            kw.pop("hpwh_model", None)
        if "hpwh_model" not in kw or draw(st.booleans()):
            kw["heating_capacity_kbtuh"] = gallons * draw(num(0.025, 0.09))
        if kind in ("parallel", "swing") or draw(st.booleans()):
            kw["tm_storage_vol"] = draw(num(50, 300))
            kw["tm_capacity_kbtuh"] = draw(num(5, 60))
            if kind in ("parallel", "swing") and draw(st.integers(0, 3)) == 0:
                kw["tm_model"] = draw(st.sampled_from(plants.mp_models()))
                if kind == "parallel" and draw(st.booleans()):
                    del kw["tm_capacity_kbtuh"]
    c = {"kind": kind, "kw": kw, "slope": draw(st.one_of(st.none(), num(1, 3))), "temps": draw(st.booleans()), "plot": draw(st.integers(0, 3)) == 1, "annual": draw(st.integers(0, 7)) == 3,
         "curve": kind != "mprtp" or draw(st.integers(0, 5)) == 4}
    if draw(st.integers(0, 3)) == 0:
        c["tariff"] = draw(c17.tariff())
    return c


# -------------------------------------------------------------------------------- oracle
def direct_place(v):
    from ecoengine.objects.building.ClimateZone import ClimateZone
    if isinstance(v, dict):
        return ClimateZone.from_design_conditions(v.get("design_oat_f"), v.get("design_inlet_water_temp_f"))
    if isinstance(v, int) and v <= 96:
        return ClimateZone.from_zone_id(v)
    s = str(v)
    for name, table in ((s, "ZipCode_ClimateZone_Lookup.csv"), (s, "WeatherStation_ClimateZone_Lookup.csv")):
        for k, z in c04._table(table):
            if k == name:
                return ClimateZone.from_zone_id(z)
    raise AssertionError(v)


def direct_building(a, tracker):
    from ecoengine.objects.building.Building import Building
    cp = [None if s is None else list(s) if not s or not isinstance(s[0], list) and None not in s else [None if x is None else list(x) for x in s]
          for s in (a["custom_peak_load_shape"], a["custom_avg_load_shape"])]
    b = Building.from_building_type(a["building_type"], a["magnitude"], direct_place(a["zip_code_or_climate_zone"]), gpdpp=25.0 if a["gpdpp"] is None else a["gpdpp"],
                                    custom_peak_load_shape=cp[0], custom_avg_load_shape=cp[1])
    b.utility_cost_tracker = tracker
    return b


def modes(a):
    s = a["load_shift_schedule"]
    if not s or 0 not in s:
        return ["normal"] * 24
    first = s.index(0)
    return ["shed" if s[h] == 0 else "loadUp" if first - a["load_up_hours"] <= h < first else "normal" for h in range(24)]


def controls(a):
    from ecoengine.objects.components.heating.Controls import Controls

    def pick(*names):
        return next(a[n] if isinstance(n, str) else n for n in names if not isinstance(n, str) or a[n] is not None)
    on_t, off_t = pick("on_trigger_t_f", "supply_temp_f"), pick("off_trigger_t_f", "storage_temp_f")

    def mk(on_f, off_f, off):
        return Controls(on_sensor_fract=on_f, on_trigger_t_f=on_t, off_sensor_fract=off_f, off_trigger_t_f=off, outlet_temp_f=a["storage_temp_f"])
    out = {"normal": mk(a["aquastat_fract"], a["off_sensor_fract"], off_t)}
    m = modes(a)
    if "shed" in m:
        out["shed"] = mk(pick("shed_aquastat_fract", "aquastat_fract"), pick("shed_off_sensor_fract", "off_sensor_fract"), off_t)
        if a["load_up_hours"] > 0:
            out["loadUp"] = mk(pick("load_up_aquastat_fract", "aquastat_fract"), pick("load_up_off_sensor_fract", "off_sensor_fract"), pick("load_up_off_trigger_t_f", off_t))
    return m, out


def one(a, on, off):
    from ecoengine.objects.components.heating.Controls import Controls
    return ["normal"] * 24, {"normal": Controls(on_sensor_fract=0.5, on_trigger_t_f=on, off_sensor_fract=0.5, off_trigger_t_f=off, outlet_temp_f=off)}


def direct_system(kind, a, b):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.components.storage.MixedStorageTank import MixedStorageTank
    from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
    from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    s, h, ret, gpm = a["supply_temp_f"], a["storage_temp_f"], a["return_temp_f"], a["return_flow_gpm"]
    sched, cmap = controls(a)
    df, run = a["defrost_factor"], 14.0 if kind == "mprtp" else a["max_daily_run_hr"]
    on = s if a["tm_on_temp_f"] is None else a["tm_on_temp_f"]
    off = s + 8.0 if a["tm_off_temp_f"] is None else a["tm_off_temp_f"]
    if a["storage_volume_storageT_gal"] is None:
        kw = dict(max_daily_run_hr=run, defrost_factor=df, control_schedule=sched, control_map=cmap)
        if kind == "instant":
            return InstantWHSystem.from_size(b, s, h, defrost_factor=df)
        if kind == "mprtp":
            return MultiPassRTPSystem.from_size(b, s, h, ret, gpm, strat_slope=0.8, **kw)
        kw["load_shift_fract_total_vol"] = ref.load_shift_fraction(a["load_shift_percent"]) if "shed" in sched else 1.0
        if kind == "sprtp":
            return SinglePassRTPSystem.from_size(b, s, h, ret, gpm, strat_slope=1.7, **kw)
        kw["strat_slope"] = 2.8
        if kind == "primary":
            return DHWSystem.from_size(b, s, h, **kw)
        kw["tm_safety_factor"] = a["tm_safety_factor"]
        if kind == "swing":
            return SwingSystem.from_size(b, s, h, ret, gpm, **kw)
        return ParallelLoopSystem.from_size(b, s, h, ret, gpm, on, off, tm_off_time_hr=a["tm_off_time_hr"], num_tm_heaters=a["num_tm_heaters"], **kw)
    cold = b.get_design_inlet_water_temp_f()
    n, vol = a["num_heaters"], a["storage_volume_storageT_gal"]
    if a["hpwh_model"] is not None:
        whs = [WaterHeater.from_model_name(a["hpwh_model"], list(sched), cmap, design_inlet_temp_f=cold, num_units=n)]
    else:
        whs = [WaterHeater.from_nominal_capacity(a["heating_capacity_kbtuh"] / n, list(sched), cmap) for _ in range(n)]
    if kind == "instant":
        x = InstantWHSystem(s, h, df)
        x.water_heaters = whs
        return x
    if kind == "mprtp":
        return MultiPassRTPSystem(whs, SlugOverlayTank(vol, cold, h, s, strat_slope=0.8), s, h, ret, gpm, max_daily_run_hr=14.0, defrost_factor=df)
    tank = StratifiedTank(vol, strat_slope=1.7 if kind == "sprtp" else 2.8)
    kw = dict(max_daily_run_hr=run, defrost_factor=df)
    if kind == "primary":
        return DHWSystem(whs, tank, s, h, **kw)
    if kind == "sprtp":
        return SinglePassRTPSystem(whs, tank, s, h, ret, gpm, **kw)
    tank2 = MixedStorageTank(a["tm_storage_vol"])
    if kind == "swing":
        x = SwingSystem(whs, tank, s, h, ret, gpm, tm_safety_factor=a["tm_safety_factor"], **kw)
        x.tm_storage_tank = tank2
        x.tm_water_heater = WaterHeater.from_nominal_capacity(a["tm_capacity_kbtuh"], *one(a, s, s + 8.0))
        return x
    m = a["num_tm_heaters"]
    each = None if a["tm_capacity_kbtuh"] is None else a["tm_capacity_kbtuh"] / m
    if a["tm_model"] is not None:
        wh = WaterHeater.from_model_name(a["tm_model"], *one(a, on, off), design_inlet_temp_f=ret, nominal_capacity_kbtuh=each)
    else:
        wh = WaterHeater.from_nominal_capacity(each, *one(a, on, off))
    return ParallelLoopSystem(whs, tank, s, h, ret, gpm, on, off, tm_off_time_hr=a["tm_off_time_hr"], tm_safety_factor=a["tm_safety_factor"], tm_storage_tank=tank2,
                              tm_water_heater=wh, num_tm_heaters=m, **kw)


# ---------------------------------------------------------------------------- comparison
def same_value(a, b, what):
    if isinstance(b, dict):
        require(set(a) == set(b), f"{what}: keys {sorted(a)} instead of {sorted(b)}")
        for k in b:
            same_value(a[k], b[k], f"{what}[{k}]")
    elif isinstance(b, (list, tuple)):
        require(len(a) == len(b), f"{what}: {len(a)} values instead of {len(b)}")
        for i, (x, y) in enumerate(zip(a, b)):
            same_value(x, y, f"{what}[{i}]")
    elif isinstance(b, (str, bool)) or b is None:
        require(a == b, f"{what}: {a!r} instead of {b!r}")
    else:
        require(a is not None, f"{what}: None instead of {b}")
        require_close(float(a), float(b), what, 1e-6, 1e-6)


def same_run(r, q, what):
    require(r.duration_min == q.duration_min and r.timestep_min == q.timestep_min, f"{what}: {r.duration_min} min of {r.timestep_min} min steps")
    for k in ("dhw_demand_supplyT_gal", "usable_volume_supplyT_gal", "heater_output_kbtuh", "heater_power_in_kw", "oat_f", "inlet_water_temp_f"):
        require_seq_close(getattr(r, k), getattr(q, k), f"{what}: {k}", 1e-6, 1e-6)
    for i, (x, y) in enumerate(zip(r.tank_temps_f, q.tank_temps_f)):
        require_seq_close(x, y, f"{what}: tank temperature {i}", 1e-6, 1e-6)
    for k in ("tm_tank_temp_f", "tm_heater_output_kbtuh", "tm_heater_input_kw"):
        same_value(list(getattr(r, k)), list(getattr(q, k)), f"{what}: {k}")
    require(list(r.heater_mode) == list(q.heater_mode), f"{what}: modes differ")
    require(r.outage_minutes == q.outage_minutes and r.stopped_early == q.stopped_early and r.get_failure_message() == q.get_failure_message(),
            f"{what}: outcome {r.outage_minutes, r.stopped_early} instead of {q.outage_minutes, q.stopped_early}")
    require(r.show_tm_panel == q.show_tm_panel and r.supply_temp_f == q.supply_temp_f, f"{what}: panel or supply temperature")


def tryit(fn):
    try:
        return True, fn()
    except (ValueError, RuntimeError, ZeroDivisionError, KeyError, TypeError) as e:
        return False, e


def make(c):
    from ecoengine import EcosizerEngine
    import copy
    kw = copy.deepcopy(c["kw"])
    tracker = c17.build(c["tariff"]) if "tariff" in c else None
    given = dict(kw)
    if tracker is not None:
        given["utility_cost_tracker"] = tracker
    a = {**DEFAULT, **copy.deepcopy(c["kw"])}
    b = direct_building(a, tracker)
    ok_d, s = tryit(lambda: direct_system(c["kind"], a, b))
    ok_e, e = tryit(lambda: EcosizerEngine(**given))
    require(ok_d == ok_e, f"engine {'accepted' if ok_e else 'raised ' + repr(e)}, direct construction {'accepted' if ok_d else 'raised ' + repr(s)}")
    if not ok_d:
        require(type(s) is type(e), f"engine raised {e!r}, direct construction {s!r}")
        raise Skip
    require(kw == c["kw"], "the engine changed its arguments")
    return a, b, s, e, tracker


def check(c):
    a, b, s, e, tracker = make(c)
    kind = c["kind"]
    require_close(e.get_hw_magnitude(), b.daily_dhw_use_supplyT_gal, "daily hot water", 1e-9)
    sized = a["storage_volume_storageT_gal"] is None
    want = {"min_capacity_kbtuh": None, "min_storage_storageT_gal": None}
    if sized:
        want = {"min_capacity_kbtuh": s.get_minimum_capacity_kbtuh(), "min_storage_storageT_gal": s.get_minimum_storage_storageT_gal()}
        if kind in ("parallel", "swing"):
            want.update(min_tm_volume_gal=s.get_minimum_tm_volume_gal(), min_tm_capacity_kbtuh=s.get_minimum_tm_capacity_kbtuh())
    same_value(e.get_sizing_results(), want, "sizing results")
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    for o in vars(e).values():                    # whatever the engine calls its system: the same design figures
        if isinstance(o, DHWSystem):
            for k, v in vars(s).items():
                if not k.startswith("_") and isinstance(v, (int, float)) and hasattr(o, k):
                    same_value(getattr(o, k), v, f"{k} of the engine's system")
    place = a["zip_code_or_climate_zone"]
    tank = s.storage_tank is None or s.storage_tank.total_volume_gal > 0        # a load that never exceeds the capacity is sized without storage
    if tank and (not isinstance(place, dict) or "design_oat_f" in place):       # without outdoor temperature there is nothing to simulate
        runs(c, a, b, s, e, tracker)
    tags = [kind, "sized" if sized else "presized"]
    if kind != "instant" and c["curve"]:
        tags += curve(c, a, b, s, e)
    if "load_shift_schedule" in c["kw"]:
        tags.append("ls")
    return len([k for k in c["kw"] if k in DEFAULT]) >= 3, tags


def runs(c, a, b, s, e, tracker):
    from ecoengine.interfaces.Simulator import simulate
    kind = c["kind"]
    # the same controls: every simulated value of three days
    r, q = e.simulate_3day(), simulate(s, b, "3day")
    same_run(r, q, f"{kind} 3-day run")
    same_value(e.get_simulation_summary(r), q.get_summary(), "summary")
    if tracker is not None:
        from ecoengine.objects.building.Building import Building
        for o in vars(e).values():                    # whatever the engine calls its building
            if isinstance(o, Building):
                require(o.utility_cost_tracker is tracker, "the tariff is not attached to the building")
    if c["plot"]:
        f = e.plot_simulation(title="T", include_temperatures=c["temps"])
        c28.check_run_fig(f, q, c["temps"], "engine plot")
        require(f.layout.title.text == "T", f"title {f.layout.title.text!r}")
        c28.same_fig(e.plot_simulation(title="T", include_temperatures=c["temps"], return_as_div=True), f, "engine plot as HTML")
    if c["annual"]:
        r, q = e.simulate_annual(), simulate(s, b, "annual")
        same_run(r, q, f"{kind} annual run")
        same_value(e.get_annual_cost_estimate(r), {"monthly_energy_kwh": q.get_monthly_energy_kwh()}, "annual estimate")
        if tracker is not None and not q.stopped_early:
            require_close(r.get_annual_utility_cost(tracker), q.get_annual_utility_cost(tracker), "annual cost", 1e-6, 1e-6)


def curve(c, a, b, s, e):
    sched, cmap = controls(a)
    kw = {} if c["slope"] is None else {"strat_slope": c["slope"]}
    slope = 2.8 if c["slope"] is None else c["slope"]
    ok, out = tryit(lambda: e.plot_sizing_curve(title="C", return_with_x_y_points=True, **kw))

    def expected():
        if "shed" in cmap:
            q = s.get_ls_sizing_curve(b, control_schedule=sched, control_map=cmap, strat_slope=slope, load_shift_percent=a["load_shift_percent"])
            return [100.0 * v for v in q["load_shift_percent"]], q["storage_storageT_gal"], q["recommended_index"]
        q = s.get_sizing_curve(b, strat_slope=slope)
        return q["storage_storageT_gal"][::-1], q["capacity_kbtuh"][::-1], len(q["heat_hours"]) - 1 - q["recommended_index"]
    ok2, w = tryit(expected)
    if ok2 and not w[0]:
        return ["empty-curve"]
    require(ok == ok2, f"engine curve {'drawn' if ok else repr(out)}, direct curve {'computed' if ok2 else repr(w)}")
    if not ok:
        return ["no-curve"]
    fig, x, y, i = out
    require_seq_close(x, w[0], "curve x", 1e-6, 1e-6)
    require_seq_close(y, w[1], "curve y", 1e-6, 1e-6)
    require(i == w[2], f"start index {i} instead of {w[2]}")
    c28.check_curve_fig(fig, w[0], w[1], w[2], "engine curve")
    require(fig.layout.title.text == "C", f"title {fig.layout.title.text!r}")
    if c["kind"] != "mprtp":
        c28.same_fig(e.plot_sizing_curve(title="C", return_as_div=True, **kw), fig, "engine curve as HTML")
    if a["storage_volume_storageT_gal"] is None:
        same_value(e.get_sizing_results()["min_capacity_kbtuh"], s.get_minimum_capacity_kbtuh(), "capacity after the curve")
    return ["curve"]


# ----------------------------------------------------------------------------- wide ranges
@st.composite
def wide_case(draw):
    """any value an argument can take, plausible together or not: sizes and controls only, so cheap"""
    kind = draw(st.sampled_from(["primary", "primary", "parallel", "swing", "sprtp", "instant"]))
    supply = draw(num(95, 145))
    storage = supply + draw(st.one_of(num(0.5, 60), num(10, 40)))
    gallons = draw(st.one_of(num(5, 100), num(300, 6000), num(6000, 80000)))
    kw = {"zip_code_or_climate_zone": draw(place(False)), "supply_temp_f": supply, "storage_temp_f": storage, "schematic": draw(st.sampled_from(NAMES[kind]))}
    draw(bld_args(kw, gallons))
    fr = num(0.0, 1.0, 3)

    def opt(name, s, often=2):
        if draw(st.integers(0, often)):
            kw[name] = draw(s)
    opt("num_heaters", st.integers(1, 12))
    opt("max_daily_run_hr", st.one_of(num(1, 24), st.integers(1, 24)))
    opt("defrost_factor", num(0.2, 1))
    opt("aquastat_fract", st.one_of(fr, num(0.1, 0.4)))
    opt("off_sensor_fract", fr)
    opt("on_trigger_t_f", num(supply - 30, storage))
    opt("off_trigger_t_f", num(supply - 20, storage + 10))
    if draw(st.integers(0, 2)):
        k = draw(st.integers(0, 4))
        if k == 0:
            sched = draw(st.lists(st.sampled_from([0, 1, 1]), min_size=24, max_size=24))
        else:
            n, s0 = draw(st.integers(1, 14)), draw(st.integers(0, 23))
            sched = [0 if (h - s0) % 24 < n and (h >= s0 or k > 2) else 1 for h in range(24)]
        kw["load_shift_schedule"] = sched
        opt("load_up_hours", st.integers(0, 24))
        opt("shed_aquastat_fract", fr)
        opt("load_up_aquastat_fract", fr)
        opt("shed_off_sensor_fract", fr)
        opt("load_up_off_sensor_fract", fr)
        opt("load_up_off_trigger_t_f", num(supply - 10, storage + 30))
        opt("load_shift_percent", st.one_of(num(0.001, 0.999, 3), num(0.3, 1.0, 2), num(0.0005, 0.03, 4), st.just(1.0), st.just(1)))
    if kind in RECIRC or draw(st.integers(0, 3)) == 0:
        kw["return_temp_f"] = supply - draw(st.one_of(num(0.1, 30), st.just(0.0)))
        kw["return_flow_gpm"] = draw(st.one_of(num(0.05, 60), st.just(0.0), num(0.5, 10)))
    opt("tm_on_temp_f", num(supply - 30, supply + 10))
    opt("tm_off_temp_f", num(supply - 10, supply + 30))
    opt("tm_off_time_hr", num(0.05, 3))
    opt("tm_safety_factor", num(1.0, 5))
    opt("num_tm_heaters", st.integers(1, 8))
    if draw(st.integers(0, 2)) == 0:
        kw["storage_volume_storageT_gal"] = draw(num(1, 20000))
        if draw(st.booleans()):
            kw["hpwh_model"] = draw(st.sampled_from(plants.sp_models() + plants.mp_models()))
        else:
            kw["heating_capacity_kbtuh"] = draw(num(1, 5000))
        if kind in ("parallel", "swing") or draw(st.booleans()):
            kw["tm_storage_vol"] = draw(num(1, 2000))
            kw["tm_capacity_kbtuh"] = draw(num(0.5, 500))
            if draw(st.integers(0, 3)) == 0:
                kw["tm_model"] = draw(st.sampled_from(plants.mp_models()))
                if kind != "swing" and draw(st.booleans()):
                    del kw["tm_capacity_kbtuh"]
    return {"kind": kind, "kw": kw, "oat": draw(num(-10, 105)), "cold": draw(num(40, 80))}


def same_heater(x, y, c, what):
    require((x is None) == (y is None), f"{what}: {x} instead of {y}")
    if x is None:
        return
    if x.control_map is not None or y.control_map is not None:
        for h in range(24):
            p, q = x.get_controls_for_hour(h), y.get_controls_for_hour(h)
            same_value(None if p is None else {k: getattr(p, k) for k in CTRL}, None if q is None else {k: getattr(q, k) for k in CTRL}, f"{what}: controls at {h}:00")
        require(x.is_load_shifting() == y.is_load_shifting(), f"{what}: load shifting {x.is_load_shifting()}")
    for fn in ("get_capacity_kbtuh", "get_power_in_kw"):
        same_value(getattr(x, fn)(c["oat"], c["kw"]["storage_temp_f"], c["cold"]), getattr(y, fn)(c["oat"], c["kw"]["storage_temp_f"], c["cold"]), f"{what}: {fn}")


CTRL = ("on_sensor_fract", "on_trigger_t_f", "off_sensor_fract", "off_trigger_t_f", "outlet_temp_f")


def check_wide(c):
    from ecoengine.objects.building.Building import Building
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    a, b, s, e, _ = make(c)
    kind = c["kind"]
    sized = a["storage_volume_storageT_gal"] is None
    require_close(e.get_hw_magnitude(), b.daily_dhw_use_supplyT_gal, "daily hot water", 1e-9)
    want = {"min_capacity_kbtuh": None, "min_storage_storageT_gal": None}
    if sized:
        want = {"min_capacity_kbtuh": s.get_minimum_capacity_kbtuh(), "min_storage_storageT_gal": s.get_minimum_storage_storageT_gal()}
        if kind in ("parallel", "swing"):
            want.update(min_tm_volume_gal=s.get_minimum_tm_volume_gal(), min_tm_capacity_kbtuh=s.get_minimum_tm_capacity_kbtuh())
    same_value(e.get_sizing_results(), want, "sizing results")
    for o in vars(e).values():
        if isinstance(o, DHWSystem):
            for k in ("supply_temp_f", "storage_temp_f", "max_daily_run_hr", "defrost_factor", "return_temp_f", "return_flow_gpm"):
                if hasattr(s, k):
                    same_value(getattr(o, k), getattr(s, k), k)
            for k in ("storage_tank", "tm_storage_tank"):
                t, u = getattr(o, k, None), getattr(s, k, None)
                require((t is None) == (u is None), f"{k}: {t} instead of {u}")
                if t is not None:
                    same_value(t.total_volume_gal, u.total_volume_gal, f"volume of {k}")
            require(len(o.water_heaters) == len(s.water_heaters), f"{len(o.water_heaters)} heaters instead of {len(s.water_heaters)}")
            for i, (x, y) in enumerate(zip(o.water_heaters, s.water_heaters)):
                same_heater(x, y, c, f"heater {i}")
            same_heater(getattr(o, "tm_water_heater", None), getattr(s, "tm_water_heater", None), c, "TM heater")
        elif isinstance(o, Building):
            require_seq_close(o.peak_load_shape, b.peak_load_shape, "peak shape", 1e-9, 1e-12)
            require_seq_close(o.avg_load_shape, b.avg_load_shape, "average shape", 1e-9, 1e-12)
            for i in (0, 1000, 4000, 8759):
                if not isinstance(a["zip_code_or_climate_zone"], dict) or "design_oat_f" in a["zip_code_or_climate_zone"]:
                    same_value(o.get_oat_f(i, 60), b.get_oat_f(i, 60), f"outdoor temperature of hour {i}")
                same_value(o.get_inlet_water_temp_f(i, 60), b.get_inlet_water_temp_f(i, 60), f"inlet temperature of hour {i}")
    ls = "shed" in modes(a)
    return len([k for k in c["kw"] if k in DEFAULT]) >= 3, [kind, "sized" if sized else "presized"] + (["ls"] if ls else [])


# --------------------------------------------------------------------------------- errors
FAULTS = ("schematic", "return_temp", "return_flow", "place", "station", "zip", "zone", "type", "magnitude", "inlet", "tm_vol", "tm_cap", "swing_model", "shape", "custom")


@st.composite
def bad_case(draw):
    f = draw(st.sampled_from(FAULTS))
    if f in ("tm_vol", "tm_cap", "swing_model"):
        c = draw(case(kinds=("swing",) if f == "swing_model" else ("parallel", "swing"), sized=False))
    elif f in ("return_temp", "return_flow"):
        c = draw(case(kinds=tuple(RECIRC)))
    else:
        c = draw(case())
    return {**c, "fault": f}


def check_bad(c):
    one = c["fault"] in ("return_temp", "return_flow", "inlet", "tm_vol", "tm_cap", "custom")      # only one way to get these wrong
    if c["fault"] in ("tm_vol", "tm_cap"):
        _check_bad({**c, "fault": "tm_vol"}, 0)
        _check_bad({**c, "fault": "tm_cap"}, 0)
    for i in (0,) if one else range(10):
        _check_bad(c, i)
    return True, (c["fault"],)


def _check_bad(c, i):
    from ecoengine import EcosizerEngine
    kw, f = dict(c["kw"]), c["fault"]
    kind = c["kind"]
    if f == "schematic":
        kw["schematic"] = ["", "swing", "Swing_Tank", "PRIMARY_NO_RECIRC", "parallel", "rtp", "instant", "multipass_norecirc", "swing_tank ", None][i]
    elif f in ("return_temp", "return_flow"):
        if kind not in RECIRC:
            raise Skip
        kw.pop({"return_temp": "return_temp_f", "return_flow": "return_flow_gpm"}[f])
    elif f == "place":
        kw["zip_code_or_climate_zone"] = [0, -1, 97, 1000, 100000, None, 12.5, [1], 9999, (1,)][i]
    elif f == "station":
        kw["zip_code_or_climate_zone"] = ["Nowhere", "", "TRUCKEE ", "123456", "9410", "zone 3", "1", "96", "94 102", "SACRAMENTO-X"][i]
    elif f == "zip":
        kw["zip_code_or_climate_zone"] = [10001, "10001", 99999, "00000", "99999", 60601, "60601", 33101, "33101", 10000][i]
    elif f == "zone":
        kw["zip_code_or_climate_zone"] = [97, 0, 100, 500, 9999, -3, 101, 200, 300, 400][i]
    elif f == "type":
        kw.update(building_type=["office", "hotel", "", "Multi_Family", "multi family", 3, "MULTI_FAMILY", "dorm", "school", "restaurant"][i], magnitude=10,
                  custom_peak_load_shape=None, custom_avg_load_shape=None)
    elif f == "magnitude":
        kw.update(building_type="multi_family", magnitude=[0, -1, -0.5, None, "100", [1, 2], 0.0, "x", [], -100][i], custom_peak_load_shape=None, custom_avg_load_shape=None)
    elif f == "inlet":
        # sizing and simulating need a design inlet temperature; sizing must say so
        if "storage_volume_storageT_gal" in kw:
            raise Skip
        kw["zip_code_or_climate_zone"] = {"design_oat_f": 40.0}
    elif f in ("tm_vol", "tm_cap"):
        if kind not in ("parallel", "swing") or "storage_volume_storageT_gal" not in kw:
            raise Skip
        if f == "tm_vol":
            kw.pop("tm_storage_vol")
        else:
            kw.pop("tm_capacity_kbtuh", None)
            kw.pop("tm_model", None)
    elif f == "swing_model":
        # the swing element is electric resistance: a heat pump model alone gives it no capacity
        if kind != "swing" or "storage_volume_storageT_gal" not in kw:
            raise Skip
        kw.pop("tm_capacity_kbtuh", None)
        kw["tm_model"] = plants.mp_models()[i % len(plants.mp_models())]
    elif f == "shape":
        n = [1 / 24] * 24
        kw.update(building_type="multi_family", magnitude=50, custom_avg_load_shape=None,
                  custom_peak_load_shape=[n[:23], n + [0.0], [0.0] * 24, [-0.5, 1.5 - 22 / 24 + 0] + [1 / 24] * 22, [0.5] * 24, [], n[:12], [2 / 24] * 24, n * 2, [1.0, 0.2] + [0.0] * 22][i])
    elif f == "custom":
        kw.update(building_type=None, magnitude=500, custom_peak_load_shape=None)
    expect_raises(lambda: EcosizerEngine(**kw), (ValueError, TypeError, KeyError), f"{f} fault {i} accepted ({kw['schematic']})")


SUBS = [
    Sub("presized", case(sized=False), check, quick=160, thorough=3000, shards=8),
    Sub("sized", case(sized=True), check, quick=160, thorough=3000, shards=8),
    Sub("multipass", case(kinds=("mprtp",)), check, quick=24, thorough=400, shards=4),
    Sub("wide", wide_case(), check_wide, quick=1600, thorough=30000, shards=8),
    Sub("errors", bad_case(), check_bad, quick=400, thorough=3000, shards=8),
]
