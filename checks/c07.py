"""C07: every point of the primary sizing curve is a plant that sizes."""
import numpy as np
from hypothesis import strategies as st

from checks.c05 import sizing_case, strat_factor
from harness import ref
from harness.core import Skip, Sub, require, require_close
from harness.gen import control, load_shape, mk_building, mk_cmap, num, peaky_shape, smooth_shape, temps

PROPERTY = "C07"
RULE = ("Cases: random design problems (shape, use, temperatures, run hours, aquastat, slope, curve step) for no-recirc, "
        "parallel-loop, single-pass RTP, swing and multi-pass RTP plants, sized or built from components.  Oracle: the "
        "independent sizing model evaluated at every curve point (sampled points for swing), plus the definition of the "
        "grid, its end and the recommended index.  Non-trivial: the curve has at least 4 points.")


def snap(b):
    return (b.daily_dhw_use_supplyT_gal, tuple(b.peak_load_shape), tuple(b.avg_load_shape))


def plant_state(s):
    out = [s.get_minimum_capacity_kbtuh(), s.get_minimum_storage_storageT_gal(), s.max_daily_run_hr,
           s.storage_tank.total_volume_gal, len(s.water_heaters)]
    return out + [h.get_capacity_kbtuh(40.0, s.storage_temp_f, 50.0) for h in s.water_heaters]


def grid(run, step, lo):
    """24 down to run, then run down to lo (exclusive), in `step`s; ambiguous ends are left to the caller."""
    g, k = [], 0
    off = (24.0 - run) / step
    if 0 < abs(off - round(off)) < 1e-6:
        raise Skip()                       # run hours a rounding error away from the grid
    off = (run - lo) / step
    if abs(off - round(off)) < 1e-6:
        raise Skip()
    while 24.0 - k * step > run + 1e-9:
        g.append(24.0 - k * step)
        k += 1
    n1 = k
    k = 0
    while run - k * step > lo + 1e-9:
        g.append(run - k * step)
        k += 1
    return g, n1


@st.composite
def curve_case(draw):
    c = draw(sizing_case())
    if draw(st.booleans()):
        c["run"] = float(draw(st.integers(16, 96))) / 4
    c["sys"] = draw(st.sampled_from(["primary", "parallel", "sprtp", "components"]))
    c["gpm"] = draw(num(0.5, 20))
    c["step"] = draw(st.sampled_from([0.25, 0.25, 0.5, 1.0, 0.4]))
    c["arg_slope"] = draw(st.one_of(st.none(), num(0.5, 6)))
    return c


def build(c, b):
    from ecoengine.objects.components.heating.WaterHeater import WaterHeater
    from ecoengine.objects.dhwsystems.DHWSystem import DHWSystem
    from ecoengine.objects.dhwsystems.recirc_systems.ParallelLoopSystem import ParallelLoopSystem
    from ecoengine.objects.dhwsystems.rtp_systems.SinglePassRTPSystem import SinglePassRTPSystem
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    kw = dict(max_daily_run_hr=c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"])
    ck = dict(control_schedule=["normal"] * 24 if cmap else None, control_map=cmap)
    if c["sys"] == "primary":
        return DHWSystem.from_size(b, c["supply"], c["storage"], **kw, **ck)
    if c["sys"] == "parallel":
        return ParallelLoopSystem.from_size(b, c["supply"], c["storage"], c["supply"] - 5.0, c["gpm"],
                                            c["supply"], c["supply"] + 8.0, **kw, **ck)
    if c["sys"] == "sprtp":
        return SinglePassRTPSystem.from_size(b, c["supply"], c["storage"], c["supply"] - 5.0, c["gpm"], **kw, **ck)
    wh = WaterHeater.from_nominal_capacity(nominal_capacity_kbtuh=37.0, **ck)
    return DHWSystem.from_components(123.0, [wh], c["supply"], c["storage"], **kw)


def check_order(cur):
    h, cap, sto = cur["heat_hours"], cur["capacity_kbtuh"], cur["storage_storageT_gal"]
    require(len(h) == len(cap) == len(sto), "curve lists differ in length")
    for i in range(1, len(h)):
        require(h[i] < h[i - 1], f"run hours do not fall at point {i}: {h[i - 1]} -> {h[i]}")
        require(cap[i] >= cap[i - 1] * (1 - 1e-9), f"capacity falls at point {i}: {cap[i - 1]} -> {cap[i]}")
        require(sto[i] <= sto[i - 1] * (1 + 1e-9) + 1e-9, f"storage rises at point {i}: {sto[i - 1]} -> {sto[i]}")


def check_curve(c):
    sf = strat_factor(c)
    if sf < 0.02:
        raise Skip()
    b = mk_building(c)
    s = build(c, b)
    comp = c["sys"] == "components"
    before = (snap(b), None if comp else plant_state(s))
    kw = {}
    if comp:
        kw["strat_slope"] = c["slope"]
    elif c["arg_slope"] is not None:
        kw["strat_slope"] = c["arg_slope"]         # a sized plant keeps the slope it was sized with
    if c["step"] != 0.25:
        kw["step"] = c["step"]
    cur = s.get_sizing_curve(b, **kw)
    require((snap(b), None if comp else plant_state(s)) == before, "computing the curve changed the building or the plant")
    require(s.max_daily_run_hr == c["run"], "computing the curve changed the run hours")
    h = cur["heat_hours"]
    check_order(cur)
    lo = 1.001 / max(c["peak"])
    g, n1 = grid(c["run"], c["step"], lo)
    require(len(h) <= len(g), f"curve has {len(h)} points, at most {len(g)} run hours exist")
    recirc = ref.recirc_loss_kbtuh(c["gpm"], c["supply"], c["supply"] - 5.0) if c["sys"] == "sprtp" else 0.0
    need = [c["daily"] * p for p in c["peak"]]
    for i, x in enumerate(h):
        require_close(x, g[i], f"run hours of point {i}", 1e-9, 1e-9)
        rate = c["daily"] / g[i]
        cap = ref.capacity_kbtuh(rate, c["supply"] - c["inlet"], c["defrost"]) + recirc * 24 / g[i] / c["defrost"]
        require_close(cur["capacity_kbtuh"][i], cap, f"capacity at {g[i]} h", 1e-7, 1e-9)
        require_close(cur["storage_storageT_gal"][i], ref.worst_deficit(need, [rate] * 24) / sf, f"storage at {g[i]} h",
                      1e-7, 1e-7 * c["daily"] / sf)
        require(cur["storage_storageT_gal"][i] > 0, "point without storage")
    if len(h) < len(g):       # ended early: only because nothing is left to store
        rest = ref.worst_deficit(need, [c["daily"] / g[len(h)]] * 24)
        require(rest <= 1e-9 * c["daily"], f"curve ends at {h[-1:]} h although {g[len(h)]} h needs {rest} gal")
    rec = cur["recommended_index"]
    require(isinstance(rec, (int, np.integer)) and rec >= 0, f"recommended index {rec!r}")
    require(rec == min(n1, max(0, len(h) - 1)), f"recommended index {rec}, expected {min(n1, max(0, len(h) - 1))}")
    if not comp and n1 < len(h):
        require_close(h[rec], c["run"], "recommended run hours", 1e-9)
        require_close(cur["capacity_kbtuh"][rec], s.get_minimum_capacity_kbtuh(), "recommended capacity", 1e-7, 1e-9)
        require_close(cur["storage_storageT_gal"][rec], s.get_minimum_storage_storageT_gal(), "recommended storage",
                      1e-7, 1e-7 * c["daily"] / sf)
    return len(h) >= 4, [c["sys"]]


# --- swing -------------------------------------------------------------------------------------------------

@st.composite
def swing_case(draw):
    t = draw(temps())
    c = {"daily": draw(num(200, 15000)), "peak": draw(st.one_of(smooth_shape(), load_shape())), **t,
         "run": draw(st.one_of(num(8, 24), st.integers(32, 96).map(lambda k: k / 4))),
         "defrost": draw(st.one_of(st.just(1.0), num(0.6, 1.0))),
         "slope": draw(st.one_of(st.just(2.8), num(1, 5))), "gpm": draw(num(0.5, 25)), "dret": draw(num(2, 15)),
         "sf": draw(num(1.1, 2.5)), "step": draw(st.sampled_from([0.25, 1.0, 2.0])),
         "cmap": draw(st.one_of(st.none(), st.fixed_dictionaries(
             {"normal": control(t["supply"], t["storage"], on_hi=0.6)}))),
         "pick": draw(st.lists(st.floats(0, 1), min_size=3, max_size=3)), "kind": "swing"}
    return c


def check_swing(c):
    from ecoengine.objects.dhwsystems.recirc_systems.SwingSystem import SwingSystem
    sf = strat_factor(c)
    if sf < 0.05:
        raise Skip()
    b = mk_building(c)
    cmap = mk_cmap(c["cmap"]) if c["cmap"] else None
    ret = c["supply"] - c["dret"]
    try:
        s = SwingSystem.from_size(b, c["supply"], c["storage"], ret, c["gpm"], tm_safety_factor=c["sf"],
                                  max_daily_run_hr=c["run"], defrost_factor=c["defrost"], strat_slope=c["slope"],
                                  control_schedule=["normal"] * 24 if cmap else None, control_map=cmap)
    except ValueError:
        raise Skip()           # the acceptance of swing problems is C10
    before = (snap(b), plant_state(s), s.get_minimum_tm_volume_gal(), s.get_minimum_tm_capacity_kbtuh())
    cur = s.get_sizing_curve(b, **({} if c["step"] == 0.25 else {"step": c["step"]}))
    require((snap(b), plant_state(s), s.get_minimum_tm_volume_gal(), s.get_minimum_tm_capacity_kbtuh()) == before,
            "computing the curve changed the building or the plant")
    h = cur["heat_hours"]
    require(len(h) == len(cur["capacity_kbtuh"]) == len(cur["storage_storageT_gal"]), "curve lists differ in length")
    g, n1 = grid(c["run"], c["step"], 1.001 / max(c["peak"]))
    require(len(h) <= len(g), f"curve has {len(h)} points, at most {len(g)} run hours exist")
    normal = (c["cmap"]["normal"]["on_f"], c["cmap"]["normal"]["on_t"]) if c["cmap"] else None

    def model(x):
        try:
            return ref.swing_size(c["daily"], c["peak"], c["peak"], x, c["supply"], c["storage"], c["inlet"],
                                  c["defrost"], c["slope"], c["gpm"], ret, c["sf"], normal)
        except ValueError:
            return None
    for i, x in enumerate(h):
        require_close(x, g[i], f"run hours of point {i}", 1e-9, 1e-9)
    for i in {int(f * (len(h) - 1)) for f in c["pick"]} | {len(h) - 1} if h else ():
        m = model(g[i])
        if m is None or m["margin"] < 1e-9:
            continue
        require_close(cur["storage_storageT_gal"][i], m["vol"], f"storage at {g[i]} h", 1e-5, 1e-6 * c["daily"] / sf)
        require_close(cur["capacity_kbtuh"][i], m["cap"], f"capacity at {g[i]} h", 1e-5)
    if len(h) < len(g):
        m = model(g[len(h)])
        if m is not None and m["margin"] > 1e-9:
            require(m["vol"] <= 1e-6 * c["daily"], f"curve ends at {h[-1:]} although {g[len(h)]} h needs {m['vol']} gal")
    rec = cur["recommended_index"]
    require(rec == min(n1, max(0, len(h) - 1)), f"recommended index {rec}, expected {min(n1, max(0, len(h) - 1))}")
    if n1 < len(h):
        require_close(cur["capacity_kbtuh"][rec], s.get_minimum_capacity_kbtuh(), "recommended capacity", 1e-7)
        require_close(cur["storage_storageT_gal"][rec], s.get_minimum_storage_storageT_gal(), "recommended storage",
                      1e-7, 1e-7 * c["daily"] / sf)
    return len(h) >= 4


# --- multi-pass RTP ---------------------------------------------------------------------------------------------

@st.composite
def mp_case(draw):
    supply = draw(num(110, 130))
    storage = supply + draw(num(8, 40))
    daily = draw(num(800, 12000))
    pu = draw(st.sampled_from([1.0, 1.0, 0.9]))
    on_f = draw(num(0.25, 0.6))
    return {"daily": daily, "peak": draw(peaky_shape()), "inlet": draw(num(38, 65)), "supply": supply,
            "storage": storage, "run": draw(st.one_of(st.just(14.0), num(10, 15))),
            "defrost": draw(st.one_of(st.just(1.0), num(0.7, 1))), "slope": draw(st.one_of(st.just(0.8), num(0.5, 1.5))),
            "gpm": draw(num(0.5, 1.0)) * daily / 1440.0, "dret": draw(num(3, 10)), "pu": pu,
            "cmap": {"normal": {"on_f": on_f, "on_t": supply, "off_f": draw(num(0.12, on_f)),
                                "off_t": draw(num(supply + 2, storage)), "out_t": storage}}, "kind": "mp"}


def mp_model(c, h):
    """(capacity without trial, storage, margin of the slug-release decisions) at h run hours"""
    n = c["cmap"]["normal"]
    ret = c["supply"] - c["dret"]
    cap = ref.capacity_kbtuh(c["daily"] / h, c["supply"] - c["inlet"], c["defrost"]) \
        + ref.recirc_loss_kbtuh(c["gpm"], c["supply"], ret) * 24 / h / c["defrost"]
    out_t = min(ref.avg_hot_temp(k["on_f"], k["on_t"], c["slope"], c["supply"], c["storage"]) for k in c["cmap"].values())
    run, near = ref.mprtp_running(c["daily"], c["peak"], cap, c["inlet"], c["supply"], ret, c["gpm"], c["storage"], out_t)
    return cap, run / strat_factor(c), near


def mp_build(c, b, **kw):
    from ecoengine.objects.dhwsystems.rtp_systems.MultiPassRTPSystem import MultiPassRTPSystem
    return MultiPassRTPSystem.from_size(b, c["supply"], c["storage"], c["supply"] - c["dret"], c["gpm"],
                                        max_daily_run_hr=c["run"], defrost_factor=c["defrost"],
                                        control_schedule=["normal"] * 24, control_map=mk_cmap(c["cmap"]),
                                        strat_slope=c["slope"], percent_useable=c["pu"], **kw)


def check_mp(c):
    if strat_factor(c) < 0.05:
        raise Skip()
    b = mk_building(c)
    if mp_model(c, c["run"])[1] < 5:
        raise Skip()
    s = mp_build(c, b)
    before = (snap(b), plant_state(s))
    cur = s.get_sizing_curve(b)
    require((snap(b), plant_state(s)) == before, "computing the curve changed the building or the plant")
    h, cap, sto = cur["heat_hours"], cur["capacity_kbtuh"], cur["storage_storageT_gal"]
    require(len(h) == len(cap) == len(sto), "curve lists differ in length")
    require(all(h[i] < h[i - 1] for i in range(1, len(h))), f"run hours do not fall: {h}")
    require(all(cap[i] > cap[i - 1] for i in range(1, len(h))), f"capacity does not rise: {cap}")
    if c["run"] <= 1.001 / max(c["peak"]):
        return False
    require(len(h) > 0, "empty curve for a sized plant")
    lo = max(9.0, 1.001 / max(c["peak"]))
    hours, x = [], c["run"]
    while x > lo - 1e-9 or x == c["run"]:
        hours.append(x)
        x -= 0.5
    models = [mp_model(c, x) for x in hours]
    rec = cur["recommended_index"]
    require_close(cap[rec], s.get_minimum_capacity_kbtuh(), "recommended capacity", 1e-9)
    require_close(sto[rec], s.get_minimum_storage_storageT_gal(), "recommended storage", 1e-9)
    ret = c["supply"] - c["dret"]
    load = c["daily"] * ref.RHO_CP * (c["supply"] - c["inlet"]) / 1000 \
        + 24 * ref.recirc_loss_kbtuh(c["gpm"], c["supply"], ret)
    k = 0
    for i in range(len(h)):
        require_close(h[i], load / (cap[i] * c["defrost"]), f"run hours of point {i} for its capacity", 0, 0.0501)
        # each point is the plant of some run-hour setting, in order
        while k < len(hours) and not (abs(sto[i] - models[k][1]) <= 1e-6 * (1 + models[k][1])
                                      and cap[i] >= models[k][0] * (1 - 1e-9)):
            if models[k][2] < 1e-6:
                raise Skip()     # slug release on a knife edge
            k += 1
        require(k < len(hours), f"point {i} (storage {sto[i]}, capacity {cap[i]}) is no sized plant of {hours}: {models}")
        k += 1
    return len(h) >= 4


SUBS = [
    Sub("curve", curve_case(), check_curve, quick=1200, thorough=20000),
    Sub("swing", swing_case(), check_swing, quick=64, thorough=1200, shards=8),
    Sub("multipass", mp_case(), check_mp, quick=24, thorough=400, shards=8),
]
