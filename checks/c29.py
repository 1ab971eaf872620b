"""C29: leaving an optional input out is the same as giving its documented default."""
from hypothesis import strategies as st

from checks import c17
from harness import design, plants, ref, systems
from harness.core import Skip, Sub, require
from harness.gen import mk_cmap, num

PROPERTY = "C29"
RULE = ("Cases: a generated design, plant, tank, tariff, building or record and an arbitrary subset of the optional arguments of a public entry point. Oracle: the object made with that "
        "subset left out and the one made with the documented values written out give equal sizes, curves, simulations and readings. Non-trivial: at least one argument left out and the "
        "call accepted.")
TM = {"tm_safety_factor": 1.2, "max_daily_run_hr": 24.0, "defrost_factor": 1.0, "strat_slope": 2.8, "load_shift_fract_total_vol": 1.0}
FROM_SIZE = {
    "primary": {"max_daily_run_hr": 24.0, "defrost_factor": 1.0, "strat_slope": 2.8, "load_shift_fract_total_vol": 1.0},
    "swing": TM, "parallel": {**TM, "tm_off_time_hr": 0.5, "num_tm_heaters": 1}, "er": {**TM, "er_safety_factor": 1.0},
    "sprtp": {"max_daily_run_hr": 16.0, "defrost_factor": 1.0, "strat_slope": 1.7, "load_shift_fract_total_vol": 1.0},
    "mprtp": {"max_daily_run_hr": 14.0, "defrost_factor": 1.0, "strat_slope": 0.8, "percent_useable": 1.0, "capacity_boost_trial_days": 3, "capacity_boost_iterations": 3},
    "instant": {"defrost_factor": 1.0},
}
BUILT = {"primary": {"max_daily_run_hr": 16.0, "defrost_factor": 1.0}, "swing": {"tm_safety_factor": 1.2, "max_daily_run_hr": 24.0, "defrost_factor": 1.0},
         "parallel": {"tm_off_time_hr": 0.5, "tm_safety_factor": 1.2, "num_tm_heaters": 1, "max_daily_run_hr": 24.0, "defrost_factor": 1.0},
         "sprtp": {"max_daily_run_hr": 16.0, "defrost_factor": 1.0}, "mprtp": {"max_daily_run_hr": 16.0, "defrost_factor": 1.0}, "instant": {"defrost_factor": 1.0}}
SIZE = {"primary": 2.8, "swing": 2.8, "parallel": 2.8, "sprtp": 1.7}
CURVE = {"primary": (2.8, 0.25), "swing": (2.8, 0.25), "parallel": (2.8, 0.25), "mprtp": (0.8, 0.5)}


def cls(kind):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingERTrdOffSystem import SwingERTrdOffSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    return {"primary": DHWSystem, "instant": InstantWHSystem, "parallel": ParallelLoopSystem, "er": SwingERTrdOffSystem, "swing": SwingSystem,
            "mprtp": MultiPassRTPSystem, "sprtp": SinglePassRTPSystem}[kind]


def subset(draw, names):
    """names left out; all of them in a third of the cases"""
    names = sorted(names)
    return names if not draw(st.integers(0, 2)) else sorted(draw(st.lists(st.sampled_from(names), unique=True, min_size=1)))


@st.composite
def size_case(draw, kinds=("primary", "swing", "parallel", "er", "sprtp", "instant")):
    k = draw(st.sampled_from(list(kinds)))
    d = draw(design.design(kinds=("swing" if k == "er" else k,)))
    d["kind"] = k
    return {"d": d, "out": subset(draw, FROM_SIZE[k]), "controls": k == "mprtp" or draw(st.booleans()), "size_out": draw(st.lists(st.sampled_from(["strat_slope", "load_shift_fract_total_vol"]), unique=True)),
            "curve_out": draw(st.lists(st.sampled_from(["strat_slope", "step"]), unique=True)), "curve": draw(st.integers(0, 2)) == 1}


def seen(d, s):
    k = "swing" if d["kind"] == "er" else d["kind"]
    out = list(design.plant({**d, "kind": k}, s))
    for a in ("tm_safety_factor", "tm_off_time_hr", "num_tm_heaters", "er_safety_factor"):
        out.append(getattr(s, a, None))
    if d["kind"] == "er":
        out.append(float(s.get_er_capacity_kbtuh()))
    if s.storage_tank is not None:
        s.storage_tank.initialize(s.storage_temp_f, 50.0, 0.6)
        out += [s.storage_tank.get_temperature_at_fraction(f) for f in (0.05, 0.2, 0.35, 0.4, 0.45, 0.6, 0.9)]
    return tuple(out)


def attempt(fn):
    try:
        return ("ok", fn())
    except (ValueError, RuntimeError, ZeroDivisionError) as e:
        return ("raised", type(e).__name__)


def check_size(c):
    d = c["d"]
    k = d["kind"]
    full = FROM_SIZE[k]
    less = {n: v for n, v in full.items() if n not in c["out"]}
    bld = design.mk_building(d["b"])
    pos = [bld, d["supply"], d["storage"]]
    if k not in ("primary", "instant"):
        pos += [d["supply"] - d["dret"], d["gpm"]]
    if k == "parallel":
        pos += [d["supply"], d["supply"] + 8.0]
    ctl = dict(control_schedule=list(d["sched"]), control_map=mk_cmap(d["cmap"])) if c["controls"] and k != "instant" else {}
    objs = []

    def mk(kw):
        s = cls(k).from_size(*pos, **kw, **ctl)
        objs.append(s)
        return seen(d, s)
    a, b = attempt(lambda: mk(less)), attempt(lambda: mk(full))
    require(a == b, f"{k}.from_size without {c['out']}: {str(a)[:400]}; with the documented values {str(b)[:400]}")
    if a[0] != "ok":
        raise Skip
    s = objs[1]
    if k in SIZE:
        doc = {"strat_slope": SIZE[k], "load_shift_fract_total_vol": 1.0}

        def resize(kw):
            s.size(bld, **ctl, **kw)
            return seen(d, s)
        a, b = (attempt(lambda kw=kw: resize(kw)) for kw in ({n: v for n, v in doc.items() if n not in c["size_out"]}, doc))
        require(a == b, f"{k}.size without {c['size_out']}: {str(a)[:400]}; with the documented values {str(b)[:400]}")
    if k in CURVE and c["curve"]:
        doc = dict(zip(("strat_slope", "step"), CURVE[k]))
        a, b = (attempt(lambda kw=kw: design.curve_result(s.get_sizing_curve(bld, **kw))) for kw in ({n: v for n, v in doc.items() if n not in c["curve_out"]}, doc))
        require(a == b, f"{k}.get_sizing_curve without {c['curve_out']} differs from the documented values")
        if ctl and design.is_ls(d) and k != "mprtp":
            doc = {"strat_slope": 2.8, "load_shift_percent": 1.0}
            a, b = (attempt(lambda kw=kw: design.curve_result(s.get_ls_sizing_curve(bld, ctl["control_schedule"], ctl["control_map"], **kw))) for kw in ({}, doc))
            require(a == b, f"{k}.get_ls_sizing_curve without slope and percent differs from the documented values")
        if k != "mprtp":
            doc = {"strat_slope": 2.8, "load_shift_percent": 1.0, "title": "Primary Sizing Curve"}
            pos = (bld, ctl["control_schedule"], ctl["control_map"]) if ctl else (bld,)
            a, b = (attempt(lambda kw=kw: design.fig_result(s.plot_sizing_curve(*pos, **kw))) for kw in ({}, doc))
            require(a == b, f"{k}.plot_sizing_curve without slope, percent and title differs from the documented values")
    return True, (k,)


# ---------------------------------------------------------------- built systems and their steps
@st.composite
def built_case(draw):
    x = draw(systems.any_case())
    x["out"] = subset(draw, BUILT[x["kind"]])
    x["first"] = draw(st.integers(0, 2000))
    return x


def check_built(x):
    k = x["kind"]
    c = x["c"]

    def mk(kw):
        s, b = systems.mk(x)
        p = [s.supply_temp_f, s.storage_temp_f]
        if k == "instant":
            n = cls(k)(*p, **kw)
        else:
            p = [s.water_heaters, s.storage_tank] + p
            if k != "primary":
                p += [s.return_temp_f, s.return_flow_gpm]
            if k == "parallel":
                p += [c["tm"]["on"], c["tm"]["off"]]
            n = cls(k)(*p, **kw)
            for a in ("tm_storage_tank", "tm_water_heater", "tm_water_heaters"):
                if hasattr(s, a):
                    setattr(n, a, getattr(s, a))
        systems.start_state(n, b, x)
        return n, b
    full = BUILT[k]
    a, ba = mk({n: v for n, v in full.items() if n not in x["out"]})
    b, bb = mk(full)
    for n in full:
        require(getattr(a, n, None) == getattr(b, n, None), f"{k} built without {x['out']}: {n} is {getattr(a, n, None)}, documented {full[n]}")
    for i in range(x["first"], x["first"] + 60):
        r = a.simulate_step(ba, i)
        q = b.simulate_step(bb, i, interval_min=1, mode="normal")
        require(repr(r) == repr(q), f"{k}: step {i} with default interval and mode gives {str(r)[:300]}, one minute in normal mode {str(q)[:300]}")
        for f in ("get_oat_f", "get_inlet_water_temp_f", "get_dhw_load_supplyT_gal"):
            require(getattr(ba, f)(i) == getattr(ba, f)(i, interval_min=1), f"{f}({i}) is not the value of minute {i}")
        require(ba.get_dhw_load_supplyT_gal(i) == ba.get_dhw_load_supplyT_gal(i, interval_min=1, use_avg=False), f"load of minute {i} is not the peak day's")
    return True, (k,)


# ---------------------------------------------------------------- components
@st.composite
def comp_case(draw):
    supply = draw(num(105, 130))
    return {"what": draw(st.sampled_from(["tanks", "tariff", "map", "zone", "heater", "record", "components"])), "vol": draw(num(20, 800)), "supply": supply, "hot": supply + draw(num(3, 40)),
            "cold": draw(num(35, 70)), "use": draw(num(0, 1)), "gal": draw(num(0, 20)), "t": draw(c17.tariff()), "model": draw(st.sampled_from(plants.sp_models())), "zone": draw(st.integers(1, 90)),
            "min": draw(st.integers(0, 525599)), "oat": draw(num(0, 110)), "mag": draw(num(1, 300)), "delivery": draw(st.lists(num(110, 125), min_size=8, max_size=40))}


def check_comp(c):
    w = c["what"]
    fr = [i / 10 for i in range(11)]

    def temps(t):
        t.initialize(c["hot"], c["cold"], c["use"])
        a = [t.get_temperature_at_fraction(f) for f in fr]
        t.draw(c["gal"], c["cold"], c["supply"], c["hot"])
        t.draw_physical_gal(c["gal"] / 2, c["cold"])
        return a + [t.get_temperature_at_fraction(f) for f in fr]
    if w == "tanks":
        from ecoengine.objects.components.storage.EnergyTank import EnergyTank
        from ecoengine.objects.components.storage.SlugOverlayTank import SlugOverlayTank
        from ecoengine.objects.components.storage.StratifiedTank import StratifiedTank
        v = c["vol"]
        require(temps(StratifiedTank(v)) == temps(StratifiedTank(v, strat_slope=2.8)), "a stratified tank without slope is not one of 2.8 F/%")
        p = (v, c["cold"], c["hot"], c["supply"])
        require(temps(EnergyTank(*p[:3])) == temps(EnergyTank(*p[:3], strat_slope=2.8)), "an energy tank without slope is not one of 2.8 F/%")
        for kw in ({}, {"percent_useable": 1.0}, {"strat_slope": 2.8}):
            require(temps(SlugOverlayTank(*p, **kw)) == temps(SlugOverlayTank(*p, percent_useable=1.0, strat_slope=2.8)), f"slug tank with {kw}")
    elif w == "tariff":
        from ecoengine.objects.building.UtilityCostTracker import UtilityCostTracker
        t = c["t"]
        s = t["seasons"][0]
        kw = dict(monthly_base_charge=t["base"], pk_start_hour=s["ps"], pk_end_hour=s["pe"], pk_demand_charge=s["pd"], pk_energy_charge=s["pE"], off_pk_demand_charge=s["od"],
                  off_pk_energy_charge=s["oE"])
        us = [UtilityCostTracker.from_params(**kw, **o) for o in ({}, {"start_month": 0}, {"end_month": 12}, {"start_month": 0, "end_month": 12, "include_discount": False})]
        for u in us[:3]:
            for h in range(0, 8760, 131):
                a, b = ((x.get_energy_charge_at_step(h, 60), x.get_demand_charge_for_period(x.get_demand_period_at_step(h, 60), 10.0)) for x in (u, us[3]))
                require(a == b, f"tariff without months at hour {h}: {a}, for the whole year {b}")
    elif w == "map":
        from ecoengine.objects.components.heating.PerformanceMap import PerformanceMap
        a = PerformanceMap.from_model_name(c["model"])
        b = PerformanceMap.from_model_name(c["model"], num_units=1, design_inlet_temp_f=50.0)
        for q in ((c["oat"], c["hot"]), (c["oat"], c["hot"], c["cold"])):
            require((a.get_capacity_kbtuh(*q), a.get_power_in_kw(*q)) == (b.get_capacity_kbtuh(*q), b.get_power_in_kw(*q)), f"{c['model']} without units and inlet at {q}")
    elif w == "zone":
        from ecoengine.objects.building.Building import Building
        from ecoengine.objects.building.ClimateZone import ClimateZone
        z = ClimateZone.from_zone_id(c["zone"])
        m = c["min"]
        require((z.get_oat_f(m), z.get_inlet_water_temp_f(m)) == (z.get_oat_f(m, interval_min=1), z.get_inlet_water_temp_f(m, interval_min=1)), f"weather of minute {m}")
        a = Building.from_building_type("multi_family", c["mag"], z)
        b = Building.from_building_type("multi_family", c["mag"], z, gpdpp=25, annual=False)
        require(design.bld_state(a) == design.bld_state(b), "a multi-family building without gpdpp is not one of 25 gallons per person in daily mode")
    elif w == "heater":
        from ecoengine.objects.components.heating.PerformanceMap import NominalPerformanceMap
        from ecoengine.objects.components.heating.WaterHeater import WaterHeater
        for h in (WaterHeater(None, None, None), WaterHeater.from_nominal_capacity(c["vol"], None, None), WaterHeater.from_model_name(c["model"], None, None)):
            require(h.fuel_type == "electric" and not h.is_active(), f"a heater without fuel is {h.fuel_type}, running = {h.is_active()}")
        require(NominalPerformanceMap(c["vol"]).get_capacity_kbtuh(c["oat"], c["hot"]) == c["vol"], "nominal capacity")
        a, b = WaterHeater.from_model_name(c["model"], None, None), WaterHeater.from_model_name(c["model"], None, None, num_units=1, design_inlet_temp_f=50.0, fuel_type="electric")
        require(a.get_capacity_kbtuh(c["oat"], c["hot"]) == b.get_capacity_kbtuh(c["oat"], c["hot"]), f"{c['model']} without units and inlet")
    elif w == "record":
        from ecoengine.objects.simulation.SimulationRun import SimulationRun
        a, b = SimulationRun(1440, 5), SimulationRun(1440, 5, outlet_deficit_threshold_f=5.0, outlet_deficit_max_min=10)
        for i, t in enumerate(c["delivery"]):
            x, y = a.check_outlet_deficit(t, 120.0), b.check_outlet_deficit(t, 120.0)
            require(bool(x) == bool(y) and a.stopped_early == b.stopped_early, f"stop limits left out: delivery {c['delivery'][:i + 1]} stops = {x}, with 5 F and 10 minutes {y}")
    else:
        from ecoengine.objects.components.heating.WaterHeater import WaterHeater
        from ecoengine.objects.building.Building import Building
        from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
        cm = mk_cmap({"normal": {"on_f": 0.4, "on_t": c["supply"], "off_f": 0.1, "off_t": c["hot"], "out_t": c["hot"]}})
        full = {"max_daily_run_hr": 24.0, "defrost_factor": 1.0, "strat_slope": 2.8}
        b = Building(climate_zone=None, daily_dhw_use_supplyT_gal=c["vol"] * 2, peak_load_shape=[1 / 24] * 24, avg_load_shape=[1 / 24] * 24, design_oat_f=40.0,
                     design_inlet_water_temp_f=c["cold"])

        def mk(kw):
            s = DHWSystem.from_components(c["vol"], [WaterHeater.from_nominal_capacity(40.0, ["normal"] * 24, cm)], c["supply"], c["hot"], **kw)
            out = [s.max_daily_run_hr, s.defrost_factor, temps(s.storage_tank)]
            return out + [repr(s.simulate_step(b, i, 10)) for i in range(20)]
        for n in full:
            a, q = mk({k: v for k, v in full.items() if k != n}), mk(full)
            require(a == q, f"from_components without {n}: {str(a[:2])}, with the documented value {str(q[:2])}")
    return True, (w,)


SUBS = [
    Sub("from_size", size_case(), check_size, quick=160, thorough=4000, shards=8),
    Sub("multi_pass", size_case(("mprtp",)), check_size, quick=16, thorough=200, shards=4),
    Sub("built", built_case(), check_built, quick=240, thorough=6000, shards=8),
    Sub("components", comp_case(), check_comp, quick=400, thorough=8000, shards=8),
]
