"""Sized systems as generated plain data, the calls a user makes on them, and comparable results of those calls."""
import hashlib

import numpy as np

from hypothesis import strategies as st

from harness import gen, plants, ref
from harness.core import Skip, Violation
from harness.gen import mk_cmap, num

KINDS = ("primary", "parallel", "swing", "sprtp", "mprtp", "instant")


@st.composite
def design(draw, kinds=KINDS, stock=False):
    kind = draw(st.sampled_from(list(kinds)))
    supply = draw(num(110, 128))
    storage = supply + draw(num(10, 40))
    b = {"mag": draw(num(30, 250)), "gpdpp": draw(num(15, 30)), "zone": draw(st.integers(1, 96))} if stock else draw(plants.building())
    if not stock:
        b["daily"] = max(b["daily"], 200.0)
        b["inlet"] = min(b["inlet"], 66.0)
    daily = b["mag"] * b["gpdpp"] if stock else b["daily"]
    on = draw(num(0.25, 0.5))
    cm = {"normal": {"on_f": on, "on_t": supply, "off_f": draw(num(0.12, on)), "off_t": storage, "out_t": storage}}
    sched = ["normal"] * 24
    if kind not in ("mprtp", "instant") and draw(st.booleans()):
        s0 = draw(st.one_of(st.integers(3, 20), st.integers(0, 22)))
        n = draw(st.integers(1, min(5, 24 - s0)))
        lu = draw(st.integers(0, min(4, s0)))
        sched = ["shed" if s0 <= h < s0 + n else "loadUp" if s0 - lu <= h < s0 else "normal" for h in range(24)]
        cm["shed"] = {"on_f": draw(num(on + 0.1, 0.8)), "on_t": supply, "off_f": draw(num(0.12, on)), "off_t": storage, "out_t": storage}
        cm["loadUp"] = {"on_f": draw(num(0.15, on)), "on_t": supply, "off_f": draw(num(0.0, 0.12)), "off_t": storage, "out_t": storage + draw(num(0, 5))}
    return {"kind": kind, "b": b, "supply": supply, "storage": storage, "run": draw(st.one_of(num(12, 20), st.just(16.0), num(8, 24))),
            "defrost": draw(st.one_of(st.just(1.0), num(0.7, 1))), "slope": {"sprtp": 1.7, "mprtp": 0.8}.get(kind, 2.8), "cmap": cm, "sched": sched,
            "pct": draw(num(0.3, 1.0, 2)), "gpm": daily * draw(num(0.0006, 0.0016)), "dret": draw(num(3, 10))}


def is_ls(d):
    return "shed" in d["cmap"]


def mk_building(b, annual=False):
    if "mag" in b:
        from ecoengine.objects.building.Building import Building
        from ecoengine.objects.building.ClimateZone import ClimateZone
        return Building.from_building_type("multi_family", b["mag"], ClimateZone.from_zone_id(b["zone"]), gpdpp=b["gpdpp"], annual=annual)
    return plants.mk_building(b)


class Args:
    """the argument objects of a sizing call; `state` shows whether somebody changed them"""

    def __init__(self, d):
        self.d = d
        self.sched = list(d["sched"])
        self.cmap = mk_cmap(d["cmap"])

    def state(self):
        return (tuple(self.sched), tuple((k, c.on_sensor_fract, c.on_trigger_t_f, c.off_sensor_fract, c.off_trigger_t_f, c.outlet_temp_f)
                                         for k, c in self.cmap.items()))


def build(d, bld, args):
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.InstantWHSystem import InstantWHSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    s, h, ret = d["supply"], d["storage"], d["supply"] - d["dret"]
    k = d["kind"]
    if k == "instant":
        return InstantWHSystem.from_size(bld, s, h, defrost_factor=d["defrost"])
    kw = dict(max_daily_run_hr=14.0 if k == "mprtp" else d["run"], defrost_factor=d["defrost"], strat_slope=d["slope"],
              control_schedule=args.sched, control_map=args.cmap)
    if k == "mprtp":
        return MultiPassRTPSystem.from_size(bld, s, h, ret, d["gpm"], **kw)
    kw["load_shift_fract_total_vol"] = ref.load_shift_fraction(d["pct"]) if is_ls(d) else 1.0
    if k == "primary":
        return DHWSystem.from_size(bld, s, h, **kw)
    if k == "parallel":
        return ParallelLoopSystem.from_size(bld, s, h, ret, d["gpm"], s, s + 8.0, tm_safety_factor=1.5, **kw)
    if k == "swing":
        return SwingSystem.from_size(bld, s, h, ret, d["gpm"], tm_safety_factor=1.5, **kw)
    return SinglePassRTPSystem.from_size(bld, s, h, ret, d["gpm"], **kw)


def sizes(d, s):
    out = [float(s.get_minimum_capacity_kbtuh()), float(s.get_minimum_storage_storageT_gal())]
    if d["kind"] in ("parallel", "swing"):
        out += [float(s.get_minimum_tm_volume_gal()), float(s.get_minimum_tm_capacity_kbtuh())]
    if d["kind"] == "swing":
        out.append(float(s.get_minimum_tm_ca_volume_gal()))
    return tuple(out)


def plant(d, s):
    """everything of a system a caller can see that a report must not change"""
    out = [sizes(d, s), s.supply_temp_f, s.storage_temp_f, s.max_daily_run_hr, s.defrost_factor, len(s.water_heaters)]
    if s.storage_tank is not None:
        out.append(float(s.storage_tank.total_volume_gal))
    for w in s.water_heaters:
        out.append(float(w.get_capacity_kbtuh(40.0, s.storage_temp_f, 50.0)))
    if getattr(s, "tm_storage_tank", None) is not None:
        out += [float(s.tm_storage_tank.total_volume_gal), float(s.tm_water_heater.get_capacity_kbtuh(40.0, s.supply_temp_f, 50.0))]
    return tuple(out)


def bld_state(b):
    return (b.daily_dhw_use_supplyT_gal, len(b.peak_load_shape), hashlib.sha1(np.asarray(b.peak_load_shape, float).tobytes()).hexdigest(),
            hashlib.sha1(np.asarray(b.avg_load_shape, float).tobytes()).hexdigest(), b.is_annual_load_shape(), b.get_design_inlet_water_temp_f())


def curve_result(c):
    return tuple((k, tuple(float(x) for x in v) if isinstance(v, (list, tuple)) else int(v)) for k, v in sorted(c.items()))


def fig_result(f):
    return (f.layout.title.text, f.layout.sliders[0].active if f.layout.sliders else None) + \
        tuple((tuple(float(x) for x in t.x), tuple(float(y) for y in t.y), t.visible) for t in f.data)


def run_result(r):
    def q(v):
        return hashlib.sha1(repr([None if x is None else float(x) for x in v]).encode()).hexdigest()
    return (len(r.dhw_demand_supplyT_gal), r.outage_minutes, r.stopped_early, r.get_failure_message(), float(r.get_total_energy_kwh()),
            float(r.get_peak_demand_kw()), q(r.dhw_demand_supplyT_gal), q(r.usable_volume_supplyT_gal), q(r.heater_output_kbtuh),
            q(r.heater_power_in_kw), q(r.oat_f), q(r.inlet_water_temp_f), tuple(q(t) for t in r.tank_temps_f), q(r.tm_tank_temp_f),
            q(r.tm_heater_output_kbtuh), q(r.tm_heater_input_kw), tuple(r.heater_mode))


def call(op, d, s, bld, args):
    """the comparable result of one user call, or ('raised', type)"""
    from ecoengine.interfaces.Simulator import simulate_3day
    k = op[0]
    try:
        if k == "resize":
            if d["kind"] == "instant":
                s.size(bld)
            elif d["kind"] == "mprtp":
                return ("sizes", sizes(d, s))         # size() alone skips the capacity trial
            else:
                s.size(bld, control_schedule=args.sched, control_map=args.cmap, strat_slope=d["slope"],
                       load_shift_fract_total_vol=ref.load_shift_fraction(d["pct"]) if is_ls(d) else 1.0)
            return ("sizes", sizes(d, s))
        if k == "sizes":
            return ("sizes", sizes(d, s))
        if k == "curve":
            return ("curve", curve_result(s.get_sizing_curve(bld, step=op[1])))
        if k == "lscurve":
            return ("curve", curve_result(s.get_ls_sizing_curve(bld, args.sched, args.cmap, load_shift_percent=d["pct"])))
        if k == "plot":
            return ("fig", fig_result(s.plot_sizing_curve(bld, control_schedule=args.sched, control_map=args.cmap, load_shift_percent=d["pct"])))
        if k == "sim":
            return ("run", run_result(simulate_3day(s, bld)))
        if k == "steps":
            for i in range(op[1], op[1] + 90):
                s.simulate_step(bld, i, 1)
            return ("done",)
        if k == "noinlet":
            # a building without design temperature cannot be sized for
            from ecoengine.objects.building.Building import Building
            b2 = Building(climate_zone=None, daily_dhw_use_supplyT_gal=500.0, peak_load_shape=[1 / 24] * 24, avg_load_shape=[1 / 24] * 24)
            s.size(b2, **({} if d["kind"] == "instant" else {"control_map": args.cmap}))
            return ("accepted",)
        if k == "badls":
            s.get_ls_sizing_curve(bld, args.sched, {"normal": args.cmap["normal"]})
            return ("accepted",)
        if k == "baddur":
            from ecoengine.interfaces.Simulator import simulate
            simulate(s, bld, duration="week")
            return ("accepted",)
        if k == "other":
            # another system on the same building
            o = build({**d, "kind": op[1], "slope": 2.8, "run": 18.0}, bld, args)
            return ("sizes", sizes({**d, "kind": op[1]}, o))
    except (ValueError, RuntimeError, ZeroDivisionError) as e:
        return ("raised", type(e).__name__)
    raise AssertionError(k)


def ops_for(d, sims=True):
    o = [("resize",), ("sizes",), ("noinlet",), ("baddur",), ("other", "primary"), ("other", "swing")]
    if d["kind"] not in ("instant", "mprtp"):
        o += [("curve", 1.0), ("curve", 0.5), ("badls",), ("plot",)]
        if is_ls(d):
            o += [("lscurve",), ("lscurve",)]
    if d["kind"] == "mprtp":
        o += [("curve", 2.0)]
    if sims:
        o += [("sim",), ("sim",), ("steps", 0), ("steps", 700)]
    return o


def make(d, annual=False, empty=False):
    """(building, arguments, system) or Skip when the design is not feasible"""
    b = mk_building(d["b"], annual)
    a = Args(d)
    before, a0 = bld_state(b), a.state()
    try:
        s = build(d, b, a)
    except (ValueError, RuntimeError, ZeroDivisionError):
        raise Skip
    if d["kind"] == "mprtp" and s.get_minimum_storage_storageT_gal() < 5:
        raise Skip
    if not empty and d["kind"] != "instant" and s.get_minimum_storage_storageT_gal() <= 0:
        raise Skip
    if bld_state(b) != before or a.state() != a0:
        raise Violation(f"sizing changed the building or the arguments: {before} -> {bld_state(b)}")
    return b, a, s
